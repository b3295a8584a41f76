/* Scenario interpreter: runs real librsync jobs under explicit call schedules
   through the public API only, and reports what was observed as JSON lines.

   usage: drv SCENARIOS OUT [START]
   One scenario per line, "OP key=value ...".  A line "B n" is written before
   scenario n starts, so that a crash or hang can be attributed. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdarg.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "librsync.h"

#if defined(__SANITIZE_ADDRESS__)
#  define ASAN 1
#elif defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define ASAN 1
#  endif
#endif
#ifndef ASAN
#  define ASAN 0
#endif
#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    define MSAN 1
#    include <sanitizer/msan_interface.h>
#  endif
#endif
#ifndef MSAN
#  define MSAN 0
#endif
#if ASAN
int __lsan_do_recoverable_leak_check(void);
#endif

typedef unsigned char u8;
/* v: bytes that exist only as islands in zeros, "v:SIZE,OFFSET=FILE,..." */
typedef struct { size_t at, n; u8 *p; } isl_t;
typedef struct { char *name; u8 *p; size_t n; isl_t *v; int nv; } blob_t;
static FILE *OUT;
static int CUR;
static int CPU_LIMIT = 20;

static void die(const char *fmt, const char *a)
{
    fprintf(stderr, "drv: ");
    fprintf(stderr, fmt, a);
    fprintf(stderr, " (scenario %d)\n", CUR);
    exit(90);
}
static void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) die("out of memory%s", ""); return p; }

static blob_t BL[4096];
static int NBL;
static blob_t EMPTY = { "", (u8 *)"", 0 };
static blob_t *blob(const char *path);
static void vparse(blob_t *b, const char *t)
{
    char *q; b->n = strtoull(t + 2, &q, 10); b->v = xmalloc(64 * sizeof(isl_t));
    while (*q == ',') {
        size_t at = strtoull(q + 1, &q, 10); char path[512]; int k = 0;
        if (*q == '=') q++;
        while (*q && *q != ',' && k < 511) path[k++] = *q++;
        path[k] = 0;
        blob_t *x = blob(path);
        if (b->nv == 64) die("islands%s", "");
        isl_t *i = &b->v[b->nv++]; i->at = at; i->n = x->n; i->p = xmalloc(x->n); memcpy(i->p, x->p, x->n);
    }
}
/* bytes pos..pos+n-1 of b into d */
static void bget(blob_t *b, size_t pos, size_t n, u8 *d)
{
    if (!n) return;
    if (!b->v) { memcpy(d, b->p + pos, n); return; }
    memset(d, 0, n);
    for (int i = 0; i < b->nv; i++) {
        isl_t *v = &b->v[i]; size_t lo = v->at > pos ? v->at : pos, hi = v->at + v->n < pos + n ? v->at + v->n : pos + n;
        if (lo < hi) memcpy(d + (lo - pos), v->p + (lo - v->at), hi - lo);
    }
}
static int beq(blob_t *b, size_t pos, size_t n, const u8 *s)
{
    if (!b->v) return !n || !memcmp(b->p + pos, s, n);
    u8 t[4096];
    for (size_t o = 0; o < n; o += sizeof t) { size_t k = n - o < sizeof t ? n - o : sizeof t; bget(b, pos + o, k, t); if (memcmp(t, s + o, k)) return 0; }
    return 1;
}
static void bfree(blob_t *b) { free(b->name); free(b->p); for (int i = 0; i < b->nv; i++) free(b->v[i].p); free(b->v); memset(b, 0, sizeof *b); }
static blob_t *blob(const char *path)
{
    if (!path || !strcmp(path, "-")) return &EMPTY;
    for (int i = 0; i < NBL; i++) if (!strcmp(BL[i].name, path)) return &BL[i];
    if (NBL == 4096) {          /* drop all */
        for (int i = 0; i < NBL; i++) bfree(&BL[i]);
        NBL = 0;
    }
    if (!strncmp(path, "v:", 2)) {
        blob_t t; memset(&t, 0, sizeof t); vparse(&t, path); t.name = strdup(path);
        BL[NBL] = t; return &BL[NBL++];
    }
    FILE *f = fopen(path, "rb");
    if (!f) die("cannot read blob %s", path);
    struct stat st; fstat(fileno(f), &st);
    blob_t *b = &BL[NBL]; memset(b, 0, sizeof *b);
    b->name = strdup(path); b->n = (size_t)st.st_size; b->p = xmalloc(b->n);
    if (fread(b->p, 1, b->n, f) != b->n) die("short blob %s", path);
    fclose(f); NBL++;
    return b;
}

/* ---- key=value lines ---- */
#define MAXKV 64
typedef struct { char *op; char *k[MAXKV], *v[MAXKV]; int n; char *line; } kv_t;
static void kv_parse(kv_t *kv, const char *line)
{
    kv->line = strdup(line); kv->n = 0; kv->op = "";
    int first = 1;
    for (char *t = strtok(kv->line, " \n"); t; t = strtok(NULL, " \n")) {
        if (first) { kv->op = t; first = 0; continue; }
        char *e = strchr(t, '=');
        if (!e || kv->n == MAXKV) die("bad token %s", t);
        *e = 0; kv->k[kv->n] = t; kv->v[kv->n++] = e + 1;
    }
}
static const char *kv_s(kv_t *kv, const char *k, const char *d)
{ for (int i = 0; i < kv->n; i++) if (!strcmp(kv->k[i], k)) return kv->v[i]; return d; }
static long long kv_i(kv_t *kv, const char *k, long long d)
{ const char *s = kv_s(kv, k, NULL); return s ? strtoll(s, NULL, 0) : d; }

/* ---- growing byte vector ---- */
typedef struct { u8 *p; size_t n, cap; } vec_t;
static void vec_add(vec_t *v, const void *p, size_t n)
{
    if (v->n + n > v->cap) { v->cap = (v->n + n) * 2 + 64; v->p = realloc(v->p, v->cap); if (!v->p) die("oom%s", ""); }
    if (n) memcpy(v->p + v->n, p, n);
    v->n += n;
}
static void vec_free(vec_t *v) { free(v->p); memset(v, 0, sizeof *v); }

static uint64_t rng_s;
static uint32_t rnd(void) { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return (uint32_t)(rng_s >> 16); }
static void rnd_seed(uint64_t s) { rng_s = s * 0x9E3779B97F4A7C15ull + 0x1234567; if (!rng_s) rng_s = 1; for (int i = 0; i < 4; i++) rnd(); }

/* ---- call schedules ---- */
typedef struct { long i, o; int e; } ent_t;
typedef struct {
    int mode;                   /* 'L' list, 'C' const, 'R' random, 'O' one */
    ent_t *ent; int n, pos;
    long ci, co;
    uint64_t seed;
    int eof_late;               /* announce end of input only in a later call */
    long ri, ro;                /* windows once a list is used up */
} sched_t;
static void sched_parse(sched_t *s, const char *t, int late)
{
    memset(s, 0, sizeof *s); s->eof_late = late; s->ri = -1; s->ro = 65536;
    if (!t || !strcmp(t, "one")) { s->mode = 'O'; return; }
    s->mode = t[0];
    if (t[0] == 'C') { sscanf(t + 2, "%ld,%ld", &s->ci, &s->co); return; }
    if (t[0] == 'R') { unsigned long long sd; sscanf(t + 2, "%llu,%ld,%ld", &sd, &s->ci, &s->co); s->seed = sd; return; }
    if (t[0] == 'L') {          /* L:i/o/e,...[;ri/ro] e in {a,n,e} */
        const char *p = t + 2; int cap = 0;
        while (*p && *p != ';') {
            if (s->n == cap) { cap = cap * 2 + 16; s->ent = realloc(s->ent, cap * sizeof(ent_t)); }
            char *q; ent_t *e = &s->ent[s->n++];
            e->i = strtol(p, &q, 10); p = q; if (*p == '/') p++;
            e->o = strtol(p, &q, 10); p = q; e->e = 'a';
            if (*p == '/') { e->e = p[1]; p += 2; }
            if (*p == ',') p++;
        }
        if (*p == ';') sscanf(p + 1, "%ld/%ld", &s->ri, &s->ro);
        return;
    }
    die("bad schedule %s", t);
}
static long pick(long max)
{
    switch (rnd() % 8) {
    case 0: return 0;
    case 1: return 1;
    case 2: return max > 3 ? (long)(rnd() % 4) : (long)(rnd() % (max + 1));
    case 3: return max;
    case 4: return max > 16 ? (long)(rnd() % 16) : (long)(rnd() % (max + 1));
    default: return (long)(rnd() % (max + 1));
    }
}

/* ---- log of file operations and callbacks ---- */
static struct { char t; long a, b; } EV[20000]; static int NEV, EVON, EVLOST;
static void ev(char t, long a, long b) { if (!EVON) return; if (NEV == 20000) { EVLOST = 1; return; } EV[NEV].t = t; EV[NEV].a = a; EV[NEV++].b = b; }
static void put_ev(void)
{
    if (!EVON) return;
    fprintf(OUT, ",\"evlost\":%d,\"ev\":[", EVLOST);
    for (int i = 0; i < NEV; i++) fprintf(OUT, "%s[\"%c\",%ld,%ld]", i ? "," : "", EV[i].t, EV[i].a, EV[i].b);
    fprintf(OUT, "]");
}

/* the work of the library in the build that counts it, see work.c */
#ifdef COUNT_WORK
extern long vf_work; extern int vf_work_on;
#define WORKING(x) (vf_work_on = 1, vf_work_tmp = (x), vf_work_on = 0, vf_work_tmp)
static int vf_work_tmp;
#else
static long vf_work;
#define WORKING(x) (x)
#endif

/* ---- basis callback ---- */
typedef struct {
    blob_t *b; FILE *f;
    int mode; long k;           /* 'f' full 's' short<=k 'o' own buffer 'F' file */
    long errat, errcode;        /* return errcode at call errat (1-based), 0 = never */
    long errrep;                /* how many consecutive calls fail, 0 = forever */
    long zeroat;                /* DONE with length 0 at that call */
    long calls; u8 *own; long bad;
    uint64_t maxend;
} cb_t;
static __thread size_t CURWIN;       /* output space of the call under way */
static rs_result copy_cb0(void *opaque, rs_long_t pos, size_t *len, void **buf)
{
    cb_t *c = opaque; c->calls++;
    if (c->errat && c->calls >= c->errat && (!c->errrep || c->calls < c->errat + c->errrep)) return (rs_result)c->errcode;
    if (*len == 0) c->bad |= 1;
    if (pos < 0) c->bad |= 2;
    if (*len > CURWIN) { c->bad |= 4; *len = CURWIN; }
    if (c->zeroat && c->calls >= c->zeroat) { *len = 0; return RS_DONE; }
    if (c->mode == 'F') {
        return rs_file_copy_cb(c->f, pos, len, buf);
    }
    if ((size_t)pos >= c->b->n) { if (c->mode != 'z') return RS_INPUT_ENDED; *len = 0; return RS_DONE; }
    size_t n = *len, av = c->b->n - (size_t)pos;
    if (n > av) n = av;
    if (c->k && c->mode != 'g' && n > (size_t)c->k) n = (size_t)c->k;
    if (c->mode == 'g' && n == *len) {      /* hands back more than it was asked for */
        free(c->own); c->own = xmalloc(n + (size_t)c->k); memset(c->own, 0xD9, n + (size_t)c->k);
        bget(c->b, (size_t)pos, n, c->own); *buf = c->own; *len = n + (size_t)c->k; return RS_DONE;
    }
    if (c->mode == 'm') { if (c->b->v) die("cb%s", ""); *buf = c->b->p + pos; }       /* a mapped basis */
    else if (c->mode == 'o' || (c->mode == 'x' && (c->calls & 1))) {
        free(c->own); c->own = xmalloc(n); bget(c->b, (size_t)pos, n, c->own); *buf = c->own;
    } else bget(c->b, (size_t)pos, n, *buf);
    *len = n;
    return RS_DONE;
}
static rs_result copy_cb(void *opaque, rs_long_t pos, size_t *len, void **buf)
{
    size_t want = *len;
#ifdef COUNT_WORK
    vf_work_on = 0;
#endif
    rs_result r = copy_cb0(opaque, pos, len, buf);
#ifdef COUNT_WORK
    vf_work_on = 1;
#endif
    ev('c', (long)want, r);
    return r;
}
static FILE *mkfile(blob_t *b)
{
    FILE *f = tmpfile(); if (!f) die("tmpfile: %s", strerror(errno));
    if (fwrite(b->p, 1, b->n, f) != b->n) die("tmpfile write%s", "");
    fflush(f); rewind(f); return f;
}
static void cb_init(cb_t *c, kv_t *kv)
{
    memset(c, 0, sizeof *c);
    const char *m = kv_s(kv, "cb", "full");
    c->mode = 'f';
    if (!strncmp(m, "short:", 6)) { c->mode = 's'; c->k = atol(m + 6); }
    else if (!strcmp(m, "own")) c->mode = 'o';
    else if (!strncmp(m, "own:", 4)) { c->mode = 'o'; c->k = atol(m + 4); }
    else if (!strncmp(m, "more:", 5)) { c->mode = 'g'; c->k = atol(m + 5); }
    else if (!strncmp(m, "map:", 4)) { c->mode = 'm'; c->k = atol(m + 4); }
    else if (!strncmp(m, "zeof:", 5)) { c->mode = 'z'; c->k = atol(m + 5); }     /* like read(): 0 bytes at the end */
    else if (!strncmp(m, "mix:", 4)) { c->mode = 'x'; c->k = atol(m + 4); }
    else if (!strcmp(m, "file")) c->mode = 'F';
    else if (strcmp(m, "full")) die("bad cb %s", m);
    c->errat = kv_i(kv, "cberrat", 0); c->errcode = kv_i(kv, "cberr", RS_IO_ERROR); c->errrep = kv_i(kv, "cberrrep", 0);
    c->zeroat = kv_i(kv, "cbzero", 0);
    const char *bf = kv_s(kv, "basisfile", NULL);
    if (bf) { c->mode = 'F'; c->f = fopen(bf, "rb"); if (!c->f) die("basisfile %s", bf); c->b = &EMPTY; }
    else { c->b = blob(kv_s(kv, "basis", "-")); if (c->mode == 'F') c->f = mkfile(c->b); }
}
static void cb_done(cb_t *c) { free(c->own); if (c->f) fclose(c->f); }

/* ---- one job under a schedule ---- */
enum { SIG, LOAD, DELTA, PATCH };
typedef struct { int ain, aout, eof, used, made, res; } tr_t;
typedef struct {
    int kind; rs_job_t *job; blob_t *in;
    rs_signature_t *loaded;     /* for LOAD */
    sched_t sc;
    size_t pos;                 /* input consumed */
    vec_t out;
    int res, final, viol, saw_all, eofdone;
    long steps; size_t fixmax;
    tr_t *tr; long ntr, captr; int want_tr;
    blob_t *exp;                /* expected output for on-line prefix check */
    int prefix_bad;
} run_t;

static int kind_of(const char *k)
{ return !strcmp(k, "sig") ? SIG : !strcmp(k, "load") ? LOAD : !strcmp(k, "delta") ? DELTA : PATCH; }

/* one call of the job with windows of exactly ain and aout bytes */
static int run_step(run_t *r, size_t ain, size_t aout, int eof)
{
    const size_t G = ASAN ? 0 : 64;
    u8 *ib = xmalloc(ain + 2 * G), *ob = xmalloc(aout + 2 * G);
    rs_buffers_t b;
    memset(&b, 0, sizeof b);
    const int lean = ain + aout > 1000000 && (r->in->n > 400000000 || (r->exp && r->exp->n > 400000000));      /* gigabytes: only the guards */
    if (G && !lean) { memset(ib, 0xA7, ain + 2 * G); memset(ob, 0x5C, aout + 2 * G); }
    if (G && lean) { memset(ib, 0xA7, G); memset(ib + G + ain, 0xA7, G); memset(ob, 0x5C, G); memset(ob + G + aout, 0x5C, G); }
    CURWIN = aout;
#if MSAN
    __msan_poison(ob + G, aout);
#endif
    bget(r->in, r->pos, ain, ib + G);
    b.next_in = (char *)ib + G; b.avail_in = ain; b.eof_in = eof;
    b.next_out = (char *)ob + G; b.avail_out = aout;
    if (!ain && (r->steps & 1)) b.next_in = NULL;
    char *ni = b.next_in, *no = b.next_out;
    int res = WORKING(rs_job_iter(r->job, &b));
    size_t used = 0, made = 0;
    if (b.avail_in > ain || b.avail_out > aout) r->viol |= 1;
    else {
        used = ain - b.avail_in; made = aout - b.avail_out;
        if (b.next_in != ni + used || b.next_out != no + made) r->viol |= 1;
    }
    if (ain && !beq(r->in, r->pos, ain, ib + G)) r->viol |= 2;
    if (G) for (size_t i = 0; i < G; i++)
        if (ob[i] != 0x5C || ob[G + aout + i] != 0x5C || ib[i] != 0xA7 || ib[G + ain + i] != 0xA7) { r->viol |= 4; break; }
    if (!!b.eof_in != !!eof) r->viol |= 8;
    if (r->exp && (r->out.n + made > r->exp->n || (made && !beq(r->exp, r->out.n, made, ob + G)))) r->prefix_bad = 1;
#if MSAN
    if (made) __msan_check_mem_is_initialized(ob + G, made);
#endif
    if (r->exp && r->exp->v) r->out.n += made;       /* too big to keep */
    else if (made) vec_add(&r->out, ob + G, made);
    r->pos += used;
    if (G && !lean) { memset(ib, 0xDD, ain + 2 * G); memset(ob, 0xDD, aout + 2 * G); }
    free(ib); free(ob);
    if (r->want_tr && r->ntr < 4000) {
        if (r->ntr == r->captr) { r->captr = r->captr * 2 + 64; r->tr = realloc(r->tr, r->captr * sizeof(tr_t)); }
        r->tr[r->ntr++] = (tr_t) { (int)ain, (int)aout, eof, (int)used, (int)made, res };
    }
    r->steps++;
    r->res = res;
    if (res != RS_BLOCKED) r->final = 1;
    return res;
}
/* choose the windows of the next call from the schedule and make it */
static int run_next(run_t *r)
{
    sched_t *s = &r->sc;
    size_t left = r->in->n - r->pos;
    long i = -1, o = 65536; int e = 'a';
    int listed = 0;
    switch (s->mode) {
    case 'O': break;
    case 'C': i = s->ci; o = s->co; break;
    case 'R': i = pick(s->ci); o = pick(s->co); break;
    case 'L': if (s->pos < s->n) { ent_t *t = &s->ent[s->pos++]; i = t->i; o = t->o; e = t->e; listed = 1; }
              else { i = s->ri; o = s->ro; } break;
    }
    size_t ain = i < 0 || (size_t)i > left ? left : (size_t)i;
    int eof = 0;
    if (r->eofdone) { ain = left; eof = 1; }      /* once announced, keep it so */
    else if (ain == left) {
        if (e == 'n') eof = 0;
        else if (listed && e == 'e') eof = 1;
        else if (s->eof_late) { eof = r->saw_all; r->saw_all = 1; }
        else eof = 1;
    }
    if (eof) r->eofdone = 1;
    return run_step(r, ain, (size_t)o, eof);
}
static long step_limit(run_t *r) { return 20000 + 64 * (long)(r->in->n + r->out.n + 64); }
static void run_all(run_t *r)
{
    long idle = 0; size_t lp = r->pos, lo = r->out.n;
    while (!r->final) {
        run_next(r);
        if (r->pos == lp && r->out.n == lo) idle++; else { idle = 0; lp = r->pos; lo = r->out.n; }
        if (idle > 2000 || r->steps > step_limit(r)) { r->viol |= 16; break; }   /* starved for ever */
    }
}
static void run_free(run_t *r) { if (r->job && rs_job_free(r->job) != RS_DONE) r->viol |= 64; r->job = NULL; vec_free(&r->out); free(r->tr); r->tr = NULL; free(r->sc.ent); r->sc.ent = NULL; }

static rs_signature_t *load_sig(blob_t *b, int *res)
{
    rs_signature_t *sig = NULL;
    rs_job_t *job = rs_loadsig_begin(&sig);
    rs_buffers_t bf; memset(&bf, 0, sizeof bf);
    u8 *c = xmalloc(b->n); memcpy(c, b->p, b->n);
    bf.next_in = (char *)c; bf.avail_in = b->n; bf.eof_in = 1;
    int r = rs_job_iter(job, &bf);
    rs_job_free(job); free(c);
    if (r == RS_DONE) r = rs_build_hash_table(sig);
    *res = r;
    if (r != RS_DONE) { rs_free_sumset(sig); sig = NULL; }
    return sig;
}
static void put_hex(const u8 *p, size_t n) { for (size_t i = 0; i < n; i++) fprintf(OUT, "%02x", p[i]); }
static void put_stats(const rs_stats_t *s)
{
    fprintf(OUT, ",\"stats\":{\"op\":\"%s\",\"lit_cmds\":%d,\"lit_bytes\":%lld,\"lit_cmdbytes\":%lld,\"copy_cmds\":%lld,\"copy_bytes\":%lld,"
            "\"copy_cmdbytes\":%lld,\"sig_blocks\":%lld,\"block_len\":%zu,\"in_bytes\":%lld,\"out_bytes\":%lld,\"false_matches\":%d}",
            s->op ? s->op : "", s->lit_cmds, (long long)s->lit_bytes, (long long)s->lit_cmdbytes, (long long)s->copy_cmds,
            (long long)s->copy_bytes, (long long)s->copy_cmdbytes, (long long)s->sig_blocks, s->block_len,
            (long long)s->in_bytes, (long long)s->out_bytes, s->false_matches);
}
static void put_calls(run_t *r)
{
    fprintf(OUT, "[");
    for (long i = 0; i < r->ntr; i++) { tr_t *t = &r->tr[i];
        fprintf(OUT, "%s[%d,%d,%d,%d,%d,%d]", i ? "," : "", t->ain, t->aout, t->eof, t->used, t->made, t->res); }
    fprintf(OUT, "]");
}
static void put_trace(run_t *r) { fprintf(OUT, ",\"trace\":"); put_calls(r); }
static uint64_t fnv(const u8 *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; } return h; }
static void save_to(const char *path, vec_t *v)
{ FILE *f = fopen(path, "wb"); if (!f) die("save %s", path); if (fwrite(v->p, 1, v->n, f) != v->n) die("save %s", path); fclose(f); }

typedef struct { kv_t *kv; cb_t cb; rs_signature_t *sig; int own_sig; int sigres; } env_t;
static int begin(run_t *r, env_t *e, kv_t *kv, rs_signature_t *shared)
{
    memset(r, 0, sizeof *r);
    r->kind = kind_of(kv_s(kv, "kind", "patch"));
    r->in = blob(kv_s(kv, "in", "-"));
    const char *ex = kv_s(kv, "exp", NULL);
    r->exp = ex ? blob(ex) : NULL;
    sched_parse(&r->sc, kv_s(kv, "sched", NULL), !strcmp(kv_s(kv, "eof", "now"), "late"));
    r->want_tr = (int)kv_i(kv, "trace", 0);
    switch (r->kind) {
    case SIG: r->job = rs_sig_begin((size_t)kv_i(kv, "bl", 0), (size_t)kv_i(kv, "sl", 0), (rs_magic_number)kv_i(kv, "magic", 0)); break;
    case LOAD: r->job = rs_loadsig_begin(&r->loaded); break;
    case DELTA: r->job = rs_delta_begin(shared); break;
    case PATCH: r->job = rs_patch_begin(copy_cb, &e->cb); break;
    }
    return 0;
}
static void env_init(env_t *e, kv_t *kv)
{
    memset(e, 0, sizeof *e); e->kv = kv;
    int k = kind_of(kv_s(kv, "kind", "patch"));
    if (k == PATCH) cb_init(&e->cb, kv);
    const char *s = kv_s(kv, "sig", NULL);
    if (k == DELTA && s) { e->sig = load_sig(blob(s), &e->sigres); e->own_sig = 1; }
}
static void env_done(env_t *e)
{
    if (kind_of(kv_s(e->kv, "kind", "patch")) == PATCH) cb_done(&e->cb);
    if (e->own_sig && e->sig) rs_free_sumset(e->sig);
}
/* the library's allocations in the builds without sanitizers, see alloc.c */
#ifdef COUNT_ALLOC
extern long vf_live, vf_bytes, vf_peak;
#else
static long vf_live, vf_bytes, vf_peak;
#endif
static long LIVE0, MEM0;
/* the most the library held since memstart(), beyond what it held then */
static void memstart(void) { MEM0 = vf_bytes; vf_peak = vf_bytes; }
static void put_mem(kv_t *kv) { if (kv_i(kv, "mem", 0)) fprintf(OUT, ",\"peak\":%ld,\"left\":%ld", vf_peak - MEM0, vf_bytes - MEM0); }
static void leakcheck(kv_t *kv)
{
    if (vf_live != LIVE0) fprintf(OUT, ",\"live\":%ld", vf_live - LIVE0);
#if ASAN
    if (kv_i(kv, "leak", 0)) fprintf(OUT, ",\"leak\":%d", __lsan_do_recoverable_leak_check() ? 1 : 0);
#else
    (void)kv;
#endif
}

/* the text of the match statistics of a signature */
static char MTEXT[600];
static void keeptext(rs_loglevel l, char const *m) { if (l == RS_LOG_INFO) snprintf(MTEXT, sizeof MTEXT, "%s", m); }
static void put_match(rs_signature_t *sig)
{
    MTEXT[0] = 0;
    rs_trace_to(keeptext); rs_trace_set_level(RS_LOG_INFO);
    rs_signature_log_stats(sig);
    rs_trace_set_level(RS_LOG_ERR); rs_trace_to(NULL);
    for (char *t = MTEXT; *t; t++) if (*t < 32 || *t > 126 || *t == '"' || *t == '\\') *t = '?';
    fprintf(OUT, ",\"mtext\":\"%s\"", MTEXT);
}

/* op "job": one job; with reps=N the same job under N random schedules */
static void op_job(kv_t *kv)
{
    env_t e; env_init(&e, kv);
    long reps = kv_i(kv, "reps", 1);
    if (e.own_sig && !e.sig) { fprintf(OUT, ",\"sigres\":%d", e.sigres); env_done(&e); return; }
    int expres = (int)kv_i(kv, "expres", -1);
    vec_t first = { 0 }; int fres = -1; long bad = 0, done = 0, steps = 0; int viol = 0; char why[512] = "";
    long checked = 0;
    FILE *sf = NULL; char *sl = NULL; size_t slcap = 0; int alltr = kv_i(kv, "trace", 0) == 2;
    if (kv_s(kv, "schedfile", NULL)) { sf = fopen(kv_s(kv, "schedfile", ""), "r"); if (!sf) die("schedfile%s", ""); reps = 0; while (getline(&sl, &slcap, sf) > 0) reps++; rewind(sf); }
    if (alltr) fprintf(OUT, ",\"traces\":[");
    EVON = (int)kv_i(kv, "ev", 0); NEV = EVLOST = 0;
    memstart(); vf_work = 0;
    for (long k = 0; k < reps; k++) {
        run_t r; begin(&r, &e, kv, e.sig);
        if (sf) { if (getline(&sl, &slcap, sf) < 0) die("schedfile%s", ""); sl[strcspn(sl, "\n")] = 0; free(r.sc.ent); sched_parse(&r.sc, sl, (int)(k & 1)); }
        e.cb.calls = 0;
        if (reps > 1 && r.sc.mode == 'R') { r.sc.seed += (uint64_t)k; r.sc.eof_late = (int)(k & 1); }
        if (r.sc.mode == 'R') rnd_seed(r.sc.seed);
        run_all(&r);
        steps += r.steps; done++;
        int isbad = 0;
        if (r.viol) isbad = 1;
        if (e.cb.bad) { isbad = 1; r.viol |= 32; }
        if (r.exp && (r.prefix_bad || (r.res == RS_DONE && r.out.n != r.exp->n))) isbad = 1;
        if (r.exp && r.final && r.out.n != r.exp->n) isbad = 1;
        if (expres >= 0 && r.res != expres) isbad = 1;
        int keep = !(r.exp && r.exp->v);
        if (k == 0) { if (keep) vec_add(&first, r.out.p, r.out.n); fres = r.res; }
        else if (keep) if (kv_i(kv, "cmpfirst", 1) && (r.res != fres || r.out.n != first.n || (first.n && memcmp(first.p, r.out.p, first.n)))) isbad = 1;
        viol |= r.viol; checked++;
        if (alltr) { fprintf(OUT, "%s", k ? "," : ""); put_calls(&r); if (k == reps - 1) fprintf(OUT, "]"); }
        if (isbad && !bad++) {
            snprintf(why, sizeof why, "rep %ld seed %llu eof_late %d: res %d outlen %zu viol %d prefixbad %d consumed %zu steps %ld", k,
                     (unsigned long long)r.sc.seed, r.sc.eof_late, r.res, r.out.n, r.viol, r.prefix_bad, r.pos, r.steps);
            if (sf) { size_t q = strlen(why); snprintf(why + q, sizeof why - q, " %s", sl); }
        }
        if (k == reps - 1) {
            fprintf(OUT, ",\"res\":%d,\"final\":%d,\"olen\":%zu,\"consumed\":%zu,\"fnv\":\"%016llx\",\"steps\":%ld,\"cbcalls\":%ld", r.res, r.final, r.out.n, r.pos,
                    (unsigned long long)(keep ? fnv(r.out.p, r.out.n) : 0), steps, e.cb.calls);
            put_stats(rs_job_statistics(r.job));
            if (r.want_tr == 1) put_trace(&r);
            put_ev();
            if (e.sig && kv_i(kv, "mstat", 0)) put_match(e.sig);
            if (r.kind == LOAD && r.loaded && kv_i(kv, "mem", 0) && r.res == RS_DONE) WORKING(rs_build_hash_table(r.loaded));
            put_mem(kv);
            if (vf_work) fprintf(OUT, ",\"work\":%ld", vf_work);
            if (kv_i(kv, "hex", 0) && keep) { fprintf(OUT, ",\"hex\":\""); put_hex(r.out.p, r.out.n); fprintf(OUT, "\""); }
            const char *sv = kv_s(kv, "save", NULL);
            if (sv) save_to(sv, &r.out);
            long again = kv_i(kv, "again", 0);   /* extra calls after the job is over */
            if (again && r.final) {
                size_t n0 = r.out.n; int ok = 1, rr = 0;
                for (long q = 0; q < again; q++) { rr = run_step(&r, 0, 64, 1); if (r.out.n != n0) ok = 0; }
                fprintf(OUT, ",\"again\":[%d,%d]", rr, ok);
            }
        }
        if (r.kind == LOAD && r.loaded) {
            const char *pn = kv_s(kv, "probe", NULL);
            if (pn && r.res == RS_DONE && rs_build_hash_table(r.loaded) == RS_DONE) {
                kv_t pk; pk.n = 0; pk.line = NULL; pk.op = "job";
                run_t d; env_t de; memset(&de, 0, sizeof de);
                pk.k[0] = "kind"; pk.v[0] = "delta"; pk.k[1] = "in"; pk.v[1] = (char *)pn; pk.n = 2;
                begin(&d, &de, &pk, r.loaded); run_all(&d);
                if (k == reps - 1) { fprintf(OUT, ",\"pres\":%d,\"phex\":\"", d.res); put_hex(d.out.p, d.out.n); fprintf(OUT, "\""); }
                const char *px = kv_s(kv, "probeexp", NULL);
                if (px) { blob_t *pb = blob(px); if (d.res != RS_DONE || d.out.n != pb->n || memcmp(d.out.p, pb->p, pb->n)) { if (!bad++) snprintf(why, sizeof why, "rep %ld: delta with the loaded signature differs", k); } }
                run_free(&d);
            }
            rs_free_sumset(r.loaded);
        }
        run_free(&r);
    }
    fprintf(OUT, ",\"reps\":%ld,\"bad\":%ld,\"viol\":%d,\"why\":\"%s\"", done, bad, viol, why);
    vec_free(&first); EVON = 0;
    if (sf) fclose(sf);
    free(sl);
    env_done(&e);
    leakcheck(kv);
}

/* op "rt": the whole pipeline under four schedules */
static void op_rt(kv_t *kv)
{
    blob_t *nw = blob(kv_s(kv, "new", "-"));
    char bl[64], sl[64], mg[64];
    snprintf(bl, sizeof bl, "%lld", kv_i(kv, "bl", 0)); snprintf(sl, sizeof sl, "%lld", kv_i(kv, "sl", 0)); snprintf(mg, sizeof mg, "%lld", kv_i(kv, "magic", 0));
    char *late = (char *)kv_s(kv, "eof", "now");
    blob_t tmp[3]; memset(tmp, 0, sizeof tmp);
    int res[4] = { -1, -1, -1, -1 }, viol = 0, bad = 0; rs_signature_t *sig = NULL;
    kv_t k; run_t r; env_t e; memset(&e, 0, sizeof e);
    size_t lens[4] = { 0 };
    do {
        k.n = 0; k.line = NULL; k.op = "job";
#define KV(a,b) (k.k[k.n] = (a), k.v[k.n++] = (char *)(b))
        KV("kind", "sig"); KV("in", kv_s(kv, "basis", "-")); KV("bl", bl); KV("sl", sl); KV("magic", mg); KV("sched", kv_s(kv, "s1", "one")); KV("eof", late);
        begin(&r, &e, &k, NULL); if (r.sc.mode == 'R') rnd_seed(r.sc.seed); run_all(&r);
        res[0] = r.res; viol |= r.viol; lens[0] = r.out.n;
        if (r.final) { fprintf(OUT, ",\"sig\":1"); put_stats(rs_job_statistics(r.job)); }
        if (kv_s(kv, "savesig", NULL)) save_to(kv_s(kv, "savesig", NULL), &r.out);
        tmp[0].p = xmalloc(r.out.n); memcpy(tmp[0].p, r.out.p ? r.out.p : (u8 *)"", r.out.n); tmp[0].n = r.out.n; run_free(&r);
        if (res[0] != RS_DONE) break;
        k.n = 0; KV("kind", "load"); KV("in", "-"); KV("sched", kv_s(kv, "s2", "one")); KV("eof", late);
        begin(&r, &e, &k, NULL); r.in = &tmp[0]; if (r.sc.mode == 'R') rnd_seed(r.sc.seed); run_all(&r);
        res[1] = r.res; viol |= r.viol; sig = r.loaded; run_free(&r);
        if (res[1] != RS_DONE) break;
        if (rs_build_hash_table(sig) != RS_DONE) { res[1] = 999; break; }
        k.n = 0; KV("kind", "delta"); KV("in", kv_s(kv, "new", "-")); KV("sched", kv_s(kv, "s3", "one")); KV("eof", late);
        begin(&r, &e, &k, sig); if (r.sc.mode == 'R') rnd_seed(r.sc.seed); run_all(&r);
        res[2] = r.res; viol |= r.viol; lens[2] = r.out.n;
        if (kv_s(kv, "savedelta", NULL)) save_to(kv_s(kv, "savedelta", NULL), &r.out);
        if (kv_i(kv, "hex", 0)) { fprintf(OUT, ",\"dhex\":\""); put_hex(r.out.p, r.out.n); fprintf(OUT, "\""); }
        tmp[1].p = xmalloc(r.out.n); memcpy(tmp[1].p, r.out.p ? r.out.p : (u8 *)"", r.out.n); tmp[1].n = r.out.n; run_free(&r);
        if (res[2] != RS_DONE) break;
        k.n = 0; KV("kind", "patch"); KV("in", "-"); KV("basis", kv_s(kv, "basis", "-")); KV("sched", kv_s(kv, "s4", "one")); KV("eof", late); KV("cb", kv_s(kv, "cb", "full"));
        env_init(&e, &k);
        begin(&r, &e, &k, NULL); r.in = &tmp[1]; if (r.sc.mode == 'R') rnd_seed(r.sc.seed); run_all(&r);
        res[3] = r.res; viol |= r.viol; lens[3] = r.out.n;
        if (res[3] != RS_DONE || r.out.n != nw->n || (nw->n && memcmp(r.out.p, nw->p, nw->n))) bad = 1;
        env_done(&e);
        run_free(&r);
    } while (0);
    if (res[3] != RS_DONE || viol) bad = 1;
    fprintf(OUT, ",\"res\":[%d,%d,%d,%d],\"lens\":[%zu,%zu,%zu],\"viol\":%d,\"bad\":%d", res[0], res[1], res[2], res[3], lens[0], lens[2], lens[3], viol, bad);
    if (sig) rs_free_sumset(sig);
    free(tmp[0].p); free(tmp[1].p);
    leakcheck(kv);
}

/* ---- stdio streams with injected behaviour ---- */
typedef struct { blob_t *b; vec_t *w; long long pos; long long failat; long chunk; long seekfail, nseek; long failn, nfail; int theneof; char tag; } ck_t;
static int FERRNO;      /* what injected read and write errors leave in errno, 0: the usual */
static size_t ck_cut(ck_t *k, size_t n)
{
    if (k->chunk > 0 && n > (size_t)k->chunk) n = (size_t)k->chunk;
    if (k->chunk < 0 && n) { size_t m = 1 + rnd() % (size_t)(-k->chunk); if (n > m) n = m; }
    return n;
}
static ssize_t ck_read(void *c, char *buf, size_t n)
{
    ck_t *k = c; size_t want = n;
    if (n == 0) return 0;
    size_t left = k->pos < (long long)k->b->n ? k->b->n - (size_t)k->pos : 0;
    int armed = k->failat >= 0 && (!k->failn || k->nfail < k->failn);
    if (armed && k->pos >= k->failat) { k->nfail++; ev(k->tag, (long)want, -1); errno = FERRNO ? FERRNO : EIO; return -1; }
    if (k->failat >= 0 && k->pos >= k->failat && k->theneof) { ev(k->tag, (long)want, 0); return 0; }
    if (armed && k->pos + (long long)n > k->failat) n = (size_t)(k->failat - k->pos);
    if (n > left) n = left;
    n = ck_cut(k, n);
    memcpy(buf, k->b->p + k->pos, n); k->pos += n; ev(k->tag, (long)want, (long)n); return (ssize_t)n;
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
    ck_t *k = c; size_t want = n;
    int armed = k->failat >= 0 && (!k->failn || k->nfail < k->failn);
    if (armed && (long long)k->w->n >= k->failat) { k->nfail++; ev('w', (long)want, -1); errno = FERRNO ? FERRNO : ENOSPC; return 0; }
    if (armed && (long long)(k->w->n + n) > k->failat) {
        /* part of it is written, then the device is full: stdio reports an error and does not retry */
        n = (size_t)(k->failat - (long long)k->w->n); k->nfail++;
        vec_add(k->w, buf, n); ev('w', (long)want, (long)n); ev('w', (long)want, -1); errno = FERRNO ? FERRNO : ENOSPC; return (ssize_t)n;
    }
    vec_add(k->w, buf, n); ev('w', (long)want, (long)n); return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *off, int wh)
{
    ck_t *k = c; k->nseek++;
    if (k->seekfail && k->nseek >= k->seekfail) { ev('s', (long)k->nseek, -1); errno = ESPIPE; return -1; }
    if (wh == SEEK_SET) k->pos = *off; else if (wh == SEEK_CUR) k->pos += *off; else k->pos = (long long)k->b->n + *off;
    *off = k->pos; return 0;
}
static FILE *ck_in(ck_t *k, blob_t *b, long long failat, long chunk, long seekfail, char tag)
{
    memset(k, 0, sizeof *k); k->b = b; k->failat = failat; k->chunk = chunk; k->seekfail = seekfail; k->tag = tag;
    cookie_io_functions_t f = { ck_read, NULL, ck_seek, NULL };
    FILE *fp = fopencookie(k, "rb", f); if (!fp) die("fopencookie%s", ""); setvbuf(fp, NULL, _IONBF, 0); return fp;
}
static FILE *ck_out(ck_t *k, vec_t *w, long long failat, long chunk)
{
    memset(k, 0, sizeof *k); k->w = w; k->failat = failat; k->chunk = chunk;
    cookie_io_functions_t f = { NULL, ck_write, NULL, NULL };
    FILE *fp = fopencookie(k, "wb", f); if (!fp) die("fopencookie%s", ""); setvbuf(fp, NULL, _IONBF, 0); return fp;
}
/* input file of the requested kind: reg | cookie | pipe */
static FILE *open_in(kv_t *kv, const char *pfx, blob_t *b, ck_t *ck)
{
    char key[64]; snprintf(key, sizeof key, "%skind", pfx);
    const char *k = kv_s(kv, key, "reg");
    if (!strcmp(k, "reg")) return mkfile(b);
    if (!strcmp(k, "pipe")) {
        int fd[2]; if (pipe(fd)) die("pipe%s", "");
        pid_t p = fork(); if (p < 0) die("fork%s", "");
        if (p == 0) { close(fd[0]); size_t o = 0; signal(SIGPIPE, SIG_IGN);
            while (o < b->n) { size_t c = b->n - o > 777 ? 777 : b->n - o; ssize_t w = write(fd[1], b->p + o, c); if (w <= 0) break; o += (size_t)w; } _exit(0); }
        close(fd[1]); return fdopen(fd[0], "rb");
    }
    char k2[64], k3[64], k4[64], k5[64]; snprintf(key, sizeof key, "%sfail", pfx); snprintf(k2, sizeof k2, "%schunk", pfx);
    snprintf(k3, sizeof k3, "%sseekfail", pfx); snprintf(k4, sizeof k4, "%sfailn", pfx); snprintf(k5, sizeof k5, "%stheneof", pfx);
    FILE *f = ck_in(ck, b, kv_i(kv, key, -1), (long)kv_i(kv, k2, 0), (long)kv_i(kv, k3, 0), pfx[0] == 'b' ? 'b' : 'r');
    ck->failn = (long)kv_i(kv, k4, 0); ck->theneof = (int)kv_i(kv, k5, 0);
    return f;
}
/* op "file": the whole-file interface */
static void op_file(kv_t *kv)
{
    int kind = kind_of(kv_s(kv, "kind", "patch"));
    ck_t ckin, ckb, cko; vec_t w = { 0 }; rs_stats_t st; memset(&st, 0, sizeof st);
    blob_t *in = blob(kv_s(kv, "in", "-"));
    int usest = (int)kv_i(kv, "stats", 1); rs_stats_t *ps = usest ? &st : NULL;
    rs_inbuflen = (int)kv_i(kv, "inbuf", 0); rs_outbuflen = (int)kv_i(kv, "outbuf", 0); FERRNO = (int)kv_i(kv, "errno", 0);
    EVON = (int)kv_i(kv, "ev", 0); NEV = EVLOST = 0; rnd_seed((uint64_t)kv_i(kv, "seed", 7));
    FILE *fi = open_in(kv, "in", in, &ckin), *fo = NULL, *fb = NULL; int res = -1;
    const char *ok = kv_s(kv, "outkind", "reg"); FILE *freg = NULL;
    if (kind != LOAD) {
        if (!strcmp(ok, "reg")) fo = freg = tmpfile();
        else fo = ck_out(&cko, &w, kv_i(kv, "outfail", -1), (long)kv_i(kv, "outchunk", 0)), cko.failn = (long)kv_i(kv, "outfailn", 0);
    }
    rs_signature_t *sig = NULL; int pres = -1; memstart();
    if (kind == SIG) res = rs_sig_file(fi, fo, (size_t)kv_i(kv, "bl", 0), (size_t)kv_i(kv, "sl", 0), (rs_magic_number)kv_i(kv, "magic", 0), ps);
    else if (kind == LOAD) {
        res = rs_loadsig_file(fi, &sig, ps);
        const char *pn = kv_s(kv, "probe", NULL);
        if (res == RS_DONE && pn && rs_build_hash_table(sig) == RS_DONE) {
            kv_t pk; pk.n = 0; pk.line = NULL; pk.op = "job"; run_t d; env_t de; memset(&de, 0, sizeof de);
            pk.k[0] = "kind"; pk.v[0] = "delta"; pk.k[1] = "in"; pk.v[1] = (char *)pn; pk.n = 2;
            begin(&d, &de, &pk, sig); run_all(&d); pres = d.res;
            vec_add(&w, d.out.p, d.out.n); run_free(&d);
        }
        if (sig) { if (kv_i(kv, "mem", 0) && res == RS_DONE && !pn) rs_build_hash_table(sig); rs_free_sumset(sig); }
    } else if (kind == DELTA) {
        int lr; sig = load_sig(blob(kv_s(kv, "sig", "-")), &lr);
        if (!sig) die("delta file scenario: bad signature%s", "");
        memstart();
        res = rs_delta_file(sig, fi, fo, ps); rs_free_sumset(sig);
    } else {
        const char *bf = kv_s(kv, "basisfile", NULL);
        fb = bf ? fopen(bf, "rb") : open_in(kv, "basis", blob(kv_s(kv, "basis", "-")), &ckb);
        if (!fb) die("basisfile %s", bf);
        memstart(); res = rs_patch_file(fb, fi, fo, ps);
    }
    if (freg) { fflush(freg); rewind(freg); u8 b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, freg)) > 0) vec_add(&w, b, n); }
    if (fo) fclose(fo);
    if (fb) fclose(fb);
    fclose(fi);
    rs_inbuflen = rs_outbuflen = 0;
    const char *ex = kv_s(kv, "exp", NULL); int bad = 0, prefix = 1;
    if (ex) { blob_t *x = blob(ex); prefix = w.n <= x->n && (!w.n || !memcmp(w.p, x->p, w.n)); if (!prefix || (res == RS_DONE && w.n != x->n)) bad = 1; }
    if (kv_i(kv, "expres", -1) >= 0 && res != kv_i(kv, "expres", -1)) bad = 1;
    fprintf(OUT, ",\"res\":%d,\"pres\":%d,\"olen\":%zu,\"prefix\":%d,\"bad\":%d,\"fnv\":\"%016llx\"", res, pres, w.n, prefix, bad, (unsigned long long)fnv(w.p, w.n));
    if (usest) put_stats(&st);
    put_ev(); EVON = 0; put_mem(kv);
    if (kv_i(kv, "hex", 0)) { fprintf(OUT, ",\"hex\":\""); put_hex(w.p, w.n); fprintf(OUT, "\""); }
    if (kv_s(kv, "save", NULL)) save_to(kv_s(kv, "save", NULL), &w);
    vec_free(&w);
    leakcheck(kv);
}

/* op "bigf": whole-file operations on (sparse) files of any size; the output is counted, compared
   with the file `exp` as it comes, and its beginning kept */
typedef struct { unsigned long long n; int exp; int differ; vec_t keep; size_t max; u8 tmp[1 << 16]; } bf_t;
static ssize_t bf_write(void *c, const char *buf, size_t n)
{
    bf_t *b = c;
    for (size_t o = 0; b->exp >= 0 && o < n && !b->differ;) {
        size_t k = n - o < sizeof b->tmp ? n - o : sizeof b->tmp; ssize_t g = pread(b->exp, b->tmp, k, (off_t)(b->n + o));
        if (g != (ssize_t)k || memcmp(b->tmp, buf + o, k)) b->differ = 1;
        o += k;
    }
    if (b->keep.n < b->max) vec_add(&b->keep, buf, n < b->max - b->keep.n ? n : b->max - b->keep.n);
    b->n += n; return (ssize_t)n;
}
static void op_bigf(kv_t *kv)
{
    int kind = kind_of(kv_s(kv, "kind", "patch")); rs_stats_t st; memset(&st, 0, sizeof st);
    bf_t *b = xmalloc(sizeof *b); memset(b, 0, sizeof *b); b->exp = -1; b->max = (size_t)kv_i(kv, "keep", 1 << 20);
    const char *ex = kv_s(kv, "expfile", NULL); if (ex && (b->exp = open(ex, O_RDONLY)) < 0) die("expfile %s", ex);
    rs_inbuflen = (int)kv_i(kv, "inbuf", 0); rs_outbuflen = (int)kv_i(kv, "outbuf", 0);
    cookie_io_functions_t f = { NULL, bf_write, NULL, NULL };
    FILE *fo = fopencookie(b, "wb", f); setvbuf(fo, NULL, _IONBF, 0);
    FILE *fi = fopen(kv_s(kv, "infile", ""), "rb"), *fb = NULL; if (!fi) die("infile%s", ""); int res = -1;
    memstart();
    if (kind == SIG) res = rs_sig_file(fi, fo, (size_t)kv_i(kv, "bl", 0), (size_t)kv_i(kv, "sl", 0), (rs_magic_number)kv_i(kv, "magic", 0), &st);
    else if (kind == DELTA) {
        int lr; rs_signature_t *sig = load_sig(blob(kv_s(kv, "sig", "-")), &lr); if (!sig) die("bigf: bad signature%s", "");
        memstart();
        res = rs_delta_file(sig, fi, fo, &st); rs_free_sumset(sig);
    } else { fb = fopen(kv_s(kv, "basisfile", ""), "rb"); if (!fb) die("basisfile%s", ""); res = rs_patch_file(fb, fi, fo, &st); fclose(fb); }
    fclose(fi); if (fclose(fo)) die("fclose%s", ""); rs_inbuflen = rs_outbuflen = 0;
    struct stat sb; unsigned long long want = b->n; if (b->exp >= 0) { if (fstat(b->exp, &sb)) die("fstat%s", ""); want = (unsigned long long)sb.st_size; close(b->exp); }
    fprintf(OUT, ",\"res\":%d,\"olen\":%llu,\"bad\":%d,\"hex\":\"", res, b->n, res == RS_DONE && (b->differ || want != b->n) ? 1 : 0);
    if (kv_i(kv, "hex", 0)) put_hex(b->keep.p, b->keep.n);
    fprintf(OUT, "\""); put_stats(&st); put_mem(kv);
    if (kv_s(kv, "save", NULL)) save_to(kv_s(kv, "save", NULL), &b->keep);
    vec_free(&b->keep); free(b);
}

/* op "drive": the callback-driven loop with application callbacks */
typedef struct { blob_t *in; size_t pos; long chunk; long failat, failcode; long calls; u8 *ib, *ob; long ochunk; vec_t out; int late; int started; size_t given; int viol; int idle; } dv_t;
static rs_result dv_in(rs_job_t *job, rs_buffers_t *b, void *o)
{
    dv_t *d = o; (void)job; d->calls++;
    if (d->failat && d->calls == d->failat) { ev('i', 0, d->failcode); return (rs_result)d->failcode; }
    ev('i', 0, RS_DONE);
    if (b->eof_in) { d->viol |= 1; return RS_DONE; }
    /* keep the unconsumed tail, add up to chunk new bytes */
    size_t tail = b->avail_in, add = d->in->n - d->given;
    if (d->chunk > 0 && add > (size_t)d->chunk) add = (size_t)d->chunk;
    if (d->chunk < 0 && add) { size_t m = rnd() % (size_t)(1 - d->chunk); if (!m && d->idle++ > 3) m = 1; if (m) d->idle = 0; if (add > m) add = m; }
    u8 *nb = xmalloc(tail + add);
    if (tail) memcpy(nb, b->next_in, tail);
    memcpy(nb + tail, d->in->p + d->given, add);
    if (d->ib) free(d->ib);
    d->ib = nb; b->next_in = (char *)nb; b->avail_in = tail + add; d->given += add;
    if (d->given == d->in->n && (!d->late || add == 0)) b->eof_in = 1;
    return RS_DONE;
}
static rs_result dv_out(rs_job_t *job, rs_buffers_t *b, void *o)
{
    dv_t *d = o; (void)job; d->calls++;
    if (d->started) { size_t n = (size_t)d->ochunk - b->avail_out; if (n > (size_t)d->ochunk || b->next_out != (char *)d->ob + n) d->viol |= 2; else vec_add(&d->out, d->ob, n); }
    if (d->failat && d->calls == d->failat) { ev('o', 0, d->failcode); return (rs_result)d->failcode; }
    ev('o', 0, RS_DONE);
    d->started = 1; free(d->ob); d->ob = xmalloc((size_t)d->ochunk);
    b->next_out = (char *)d->ob; b->avail_out = (size_t)d->ochunk;
    return RS_DONE;
}
static void op_drive(kv_t *kv)
{
    env_t e; env_init(&e, kv); run_t r; begin(&r, &e, kv, e.sig);
    dv_t di, dout; memset(&di, 0, sizeof di); memset(&dout, 0, sizeof dout);
    di.in = r.in; di.chunk = (long)kv_i(kv, "ichunk", 0); di.failat = (long)kv_i(kv, "infailat", 0); di.failcode = (long)kv_i(kv, "failcode", RS_IO_ERROR);
    di.late = !strcmp(kv_s(kv, "eof", "now"), "late");
    dout.ochunk = (long)kv_i(kv, "ochunk", 4096); dout.failat = (long)kv_i(kv, "outfailat", 0); dout.failcode = di.failcode;
    rs_buffers_t b; memset(&b, 0x77, sizeof b);
    int noout = (int)kv_i(kv, "noout", 0);
    EVON = (int)kv_i(kv, "ev", 0); NEV = EVLOST = 0; rnd_seed((uint64_t)kv_i(kv, "seed", 7));
    CURWIN = SIZE_MAX;
    int res = rs_job_drive(r.job, &b, dv_in, &di, noout ? NULL : dv_out, &dout);
    int bad = 0, prefix = 1;
    if (r.exp) { prefix = dout.out.n <= r.exp->n && (!dout.out.n || !memcmp(dout.out.p, r.exp->p, dout.out.n)); if (!prefix || (res == RS_DONE && dout.out.n != r.exp->n)) bad = 1; }
    if (kv_i(kv, "expres", -1) >= 0 && res != kv_i(kv, "expres", -1)) bad = 1;
    fprintf(OUT, ",\"res\":%d,\"olen\":%zu,\"prefix\":%d,\"bad\":%d,\"viol\":%d,\"incalls\":%ld,\"outcalls\":%ld,\"cbcalls\":%ld", res, dout.out.n, prefix, bad, di.viol | dout.viol, di.calls, dout.calls, e.cb.calls);
    if (kv_i(kv, "hex", 0)) { fprintf(OUT, ",\"hex\":\""); put_hex(dout.out.p, dout.out.n); fprintf(OUT, "\""); }
    put_ev(); EVON = 0;
    if (r.kind == LOAD && r.loaded) rs_free_sumset(r.loaded);
    free(di.ib); free(dout.ob); vec_free(&dout.out); run_free(&r); env_done(&e);
    leakcheck(kv);
}

/* op "multi": interleaved jobs. job specs are given by earlier "def" lines.
   jobs=a,b,..  order of tokens: bK begin job K, K one call of job K, fK free job K,
   hK index the signature job K loaded, gK free that signature.
   A delta def has slot=NAME (slots=NAME:sigfile,.. loaded beforehand) or
   from=K (the signature loaded by job K of this scenario). */
#define MAXDEF 256
static kv_t DEF[MAXDEF]; static int NDEF;
typedef struct { char name[32]; rs_signature_t *sig; } slot_t;
static void op_multi(kv_t *kv)
{
    slot_t sl[16]; int ns = 0; run_t r[16]; env_t e[16]; int nj = 0, st[16] = { 0 };     /* st: 0 not begun, 1 live, 2 freed */
    rs_signature_t *got[16] = { 0 }; int built[16] = { 0 };
    char *t = strdup(kv_s(kv, "slots", "")), *sv;
    for (char *p = strtok_r(t, ",", &sv); p; p = strtok_r(NULL, ",", &sv)) {
        char *c = strchr(p, ':'); if (!c) die("slot %s", p);
        *c = 0; int lr; snprintf(sl[ns].name, 32, "%s", p); sl[ns].sig = load_sig(blob(c + 1), &lr);
        if (!sl[ns].sig) die("slot signature %s", c + 1);
        ns++;
    }
    free(t);
    t = strdup(kv_s(kv, "jobs", ""));
    kv_t *jd[16]; memset(r, 0, sizeof r); memset(e, 0, sizeof e);
    for (char *p = strtok_r(t, ",", &sv); p; p = strtok_r(NULL, ",", &sv)) {
        kv_t *d = NULL; for (int i = 0; i < NDEF; i++) if (!strcmp(kv_s(&DEF[i], "name", ""), p)) d = &DEF[i];
        if (!d || nj == 16) die("no def %s", p);
        jd[nj++] = d;
    }
    free(t);
    int bad = 0, viol = 0; char why[256] = "";
    long calls = 0; int res[16]; size_t lens[16]; long stp[16]; for (int k = 0; k < nj; k++) { res[k] = -1; lens[k] = 0; stp[k] = 0; }
    t = xmalloc(strlen(kv_s(kv, "order", "")) + 16 * 24); strcpy(t, kv_s(kv, "order", ""));
    /* whatever the order leaves undone is done at the end */
    if (!kv_i(kv, "abandon", 0)) {
        for (int k = 0; k < nj; k++) if (kind_of(kv_s(jd[k], "kind", "")) != DELTA || !kv_s(jd[k], "from", NULL)) sprintf(t + strlen(t), ",b%d,r%d,h%d", k, k, k);
        for (int k = 0; k < nj; k++) if (kind_of(kv_s(jd[k], "kind", "")) == DELTA && kv_s(jd[k], "from", NULL)) sprintf(t + strlen(t), ",b%d,r%d", k, k);
    }
    for (char *p = strtok_r(t, ",", &sv); p; p = strtok_r(NULL, ",", &sv)) {
        int k = atoi(strchr("bfhgr", *p) ? p + 1 : p); if (k < 0 || k >= nj) die("order %s", p);
        if (*p == 'b') {
            if (st[k]) continue;
            rs_signature_t *s = NULL; const char *sn = kv_s(jd[k], "slot", NULL); int from = (int)kv_i(jd[k], "from", -1);
            if (sn) { for (int i = 0; i < ns; i++) if (!strcmp(sl[i].name, sn)) s = sl[i].sig; if (!s) die("no slot %s", sn); }
            if (from >= 0) { s = got[from]; if (!s || !built[from]) continue; }     /* its signature never came to be or is gone */
            env_init(&e[k], jd[k]); begin(&r[k], &e[k], jd[k], s ? s : e[k].sig); st[k] = 1;
            if (r[k].sc.mode == 'R') r[k].sc.mode = 'C';
        } else if (*p == 'f') {
            if (st[k] != 1) continue;
            if (!r[k].final && r[k].kind == LOAD && r[k].loaded) { rs_job_free(r[k].job); r[k].job = NULL; rs_free_sumset(r[k].loaded); }
            if (r[k].final) res[k] = r[k].res;
            lens[k] = r[k].out.n; stp[k] = r[k].steps;
            run_free(&r[k]); viol |= r[k].viol; env_done(&e[k]); st[k] = 2;
        } else if (*p == 'h') {
            if (got[k] && !built[k]) { if (rs_build_hash_table(got[k]) != RS_DONE) bad = 1; built[k] = 1; }
        } else if (*p == 'g') {
            if (got[k]) rs_free_sumset(got[k]);
            got[k] = NULL; built[k] = 0;
        } else {
            int all = *p == 'r';
            while (st[k] == 1 && !r[k].final) {
                if (all) run_all(&r[k]); else run_next(&r[k]);
                calls++;
                if (r[k].viol & 16) { res[k] = -2; break; }
                if (r[k].final) {
                    if (r[k].kind == LOAD) { if (r[k].res == RS_DONE) got[k] = r[k].loaded; else if (r[k].loaded) rs_free_sumset(r[k].loaded); r[k].loaded = NULL; }
                    int b = 0;
                    if (r[k].exp && (r[k].prefix_bad || r[k].out.n != r[k].exp->n)) b = 1;
                    if (kv_i(jd[k], "expres", 0) != r[k].res) b = 1;
                    if (b && !bad) snprintf(why, sizeof why, "job %d: res %d outlen %zu", k, r[k].res, r[k].out.n);
                    bad |= b;
                }
                if (!all) break;
            }
            if (st[k] == 1 && r[k].prefix_bad) bad = 1;
        }
    }
    free(t);
    fprintf(OUT, ",\"jobs\":[");
    for (int k = 0; k < nj; k++) {
        if (st[k] == 1) { if (r[k].final) res[k] = r[k].res; lens[k] = r[k].out.n; stp[k] = r[k].steps; viol |= r[k].viol; }
        fprintf(OUT, "%s[%d,%zu,%d,%ld]", k ? "," : "", res[k], lens[k], st[k], stp[k]);
    }
    fprintf(OUT, "]");
    for (int k = 0; k < nj; k++) if (st[k] == 1) {
        if (!r[k].final && r[k].kind == LOAD && r[k].loaded) { rs_job_free(r[k].job); r[k].job = NULL; rs_free_sumset(r[k].loaded); }
        run_free(&r[k]); viol |= r[k].viol; env_done(&e[k]);
    }
    for (int k = 0; k < nj; k++) if (got[k]) rs_free_sumset(got[k]);
    for (int i = 0; i < ns; i++) rs_free_sumset(sl[i].sig);
    fprintf(OUT, ",\"bad\":%d,\"viol\":%d,\"calls\":%ld,\"why\":\"%s\"", bad, viol, calls, why);
    leakcheck(kv);
}

/* op "threads": every def in a thread of its own, all at once */
typedef struct { kv_t *d; long reps; int bad, viol; } th_t;
static void *th_main(void *a)
{
    th_t *t = a;
    for (long k = 0; k < t->reps; k++) {
        env_t e; run_t r; env_init(&e, t->d);
        begin(&r, &e, t->d, e.sig); run_all(&r);
        if (r.kind == LOAD && r.loaded) rs_free_sumset(r.loaded);
        if (r.res != (int)kv_i(t->d, "expres", 0) || (r.exp && (r.prefix_bad || r.out.n != r.exp->n))) t->bad = 1;
        t->viol |= r.viol;
        run_free(&r); env_done(&e);
    }
    return NULL;
}
static void op_threads(kv_t *kv)
{
    th_t th[16]; pthread_t id[16]; int n = 0; char *sv, *t = strdup(kv_s(kv, "jobs", ""));
    for (char *p = strtok_r(t, ",", &sv); p; p = strtok_r(NULL, ",", &sv)) {
        kv_t *d = NULL; for (int i = 0; i < NDEF; i++) if (!strcmp(kv_s(&DEF[i], "name", ""), p)) d = &DEF[i];
        if (!d || n == 16) die("no def %s", p);
        th[n++] = (th_t) { d, kv_i(kv, "reps", 3), 0, 0 };
        const char *key[] = { "in", "exp", "sig", "basis" };
        for (int i = 0; i < 4; i++) if (kv_s(d, key[i], NULL)) blob(kv_s(d, key[i], NULL));     /* read the files first */
    }
    free(t); blob("-");
    for (int i = 0; i < n; i++) if (pthread_create(&id[i], NULL, th_main, &th[i])) die("pthread_create%s", "");
    int bad = 0, viol = 0;
    for (int i = 0; i < n; i++) { pthread_join(id[i], NULL); bad |= th[i].bad; viol |= th[i].viol; }
    fprintf(OUT, ",\"bad\":%d,\"viol\":%d", bad, viol);
    leakcheck(kv);
}


/* op "win": windows of gigabytes, everything in one call.  The input is zeros with islands.
   patch: output compared with exp; sig: with the same job fed in slices; delta: the output is
   reported as runs of equal commands, literal bytes compared with the input they stand for */
static u8 *bigmap(size_t n)
{
    u8 *p = mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) die("mmap%s", "");
    return p;
}
static void op_win(kv_t *kv)
{
    env_t e; env_init(&e, kv);
    run_t r; begin(&r, &e, kv, e.sig);
    size_t n = r.in->n, on = (size_t)kv_i(kv, "out", 0);
    u8 *ib = bigmap(n), *ob = bigmap(on);
    if (r.in->v) { for (int i = 0; i < r.in->nv; i++) memcpy(ib + r.in->v[i].at, r.in->v[i].p, r.in->v[i].n); }
    else memcpy(ib, r.in->p, n);
    rs_buffers_t b; memset(&b, 0, sizeof b);
    b.next_in = (char *)ib; b.avail_in = n; b.eof_in = 1; b.next_out = (char *)ob; b.avail_out = on;
    int res = RS_BLOCKED, bad = 0; long calls = 0;
    CURWIN = on;
    size_t mid = (size_t)kv_i(kv, "mid", 0);         /* a first call with less space */
    if (mid) { b.avail_out = mid; res = rs_job_iter(r.job, &b); if (res == RS_BLOCKED && b.avail_out) bad = 6; b.avail_out += on - mid; }
    while (!bad && res == RS_BLOCKED && calls++ < 10) res = rs_job_iter(r.job, &b);
    size_t made = on - b.avail_out;
    if (b.avail_in > n || b.avail_out > on || b.next_in != (char *)ib + (n - b.avail_in) || b.next_out != (char *)ob + made) { bad = 1; made = 0; }
    if (made < on && ob[made]) bad = 2;
    if (e.cb.bad) bad = 3;
    if (r.exp && (made != r.exp->n || !beq(r.exp, 0, made, ob))) bad = 4;
    if (r.kind == SIG && !bad) {
        run_t q; begin(&q, &e, kv, NULL); sched_parse(&q.sc, "C:1048576,1048576", 0); run_all(&q);
        if (q.res != res || q.viol || q.out.n != made || memcmp(q.out.p, ob, made)) bad = 5;
        run_free(&q);
    }
    fprintf(OUT, ",\"res\":%d,\"bad\":%d,\"used\":%zu,\"made\":%zu,\"calls\":%ld", res, bad, n - b.avail_in, made, calls);
    if (r.kind == DELTA) {
        size_t at = 4, src = 0; long cnt = 0, runs = 0; const u8 *ph = NULL; size_t phl = 0; int ok = made >= 4, end = 0;
        fprintf(OUT, ",\"runs\":[");
        while (ok && at < made && runs < 2000) {
            u8 c = ob[at]; size_t h; uint64_t len = 0;
            static const int W[4] = { 1, 2, 4, 8 };
            if (c == 0) { end = at + 1 == made; break; }
            else if (c <= 64) { h = 1; len = c; }
            else if (c <= 0x44) { int w = W[c - 0x41]; h = 1 + (size_t)w; for (int i = 0; i < w; i++) len = len << 8 | ob[at + 1 + (size_t)i]; }
            else if (c <= 0x54) { int wp = W[(c - 0x45) / 4], wl = W[(c - 0x45) % 4]; h = 1 + (size_t)wp + (size_t)wl; for (int i = 0; i < wl; i++) len = len << 8 | ob[at + 1 + (size_t)(wp + i)]; }
            else { ok = 0; break; }
            if (ph && phl == h && !memcmp(ph, ob + at, h)) cnt++;
            else { if (ph) { fprintf(OUT, "%s[\"", runs++ ? "," : ""); put_hex(ph, phl); fprintf(OUT, "\",%ld]", cnt); } ph = ob + at; phl = h; cnt = 1; }
            at += h;
            if (c <= 0x44) { if (len > made - at || len > n - src || memcmp(ob + at, ib + src, len)) { ok = 0; break; } at += len; }
            if (len > n - src) { ok = 0; break; }
            src += len;
        }
        if (ph) { fprintf(OUT, "%s[\"", runs++ ? "," : ""); put_hex(ph, phl); fprintf(OUT, "\",%ld]", cnt); }
        fprintf(OUT, "],\"dok\":%d,\"magic\":\"", ok && end && src == n); put_hex(ob, 4); fprintf(OUT, "\"");
    }
    munmap(ib, n + 1); munmap(ob, on + 1);
    run_free(&r); env_done(&e);
    leakcheck(kv);
}

/* op "farsig": a delta against a signature of n entries, made up on the way except those in ents
   (each: 8 bytes index, 4 bytes weak sum, sl bytes strong sum, in order) */
static void op_farsig(kv_t *kv)
{
    size_t n = (size_t)kv_i(kv, "n", 1), sl = (size_t)kv_i(kv, "sl", 32), el = 4 + sl, done = 0, at = 0;
    blob_t *en = blob(kv_s(kv, "ents", "-")), *in = blob(kv_s(kv, "in", "-"));
    u8 h[12]; uint64_t x = (uint64_t)kv_i(kv, "seed", 1) | 1;
    for (int i = 0; i < 4; i++) { h[i] = (u8)(kv_i(kv, "magic", 0) >> (24 - 8 * i)); h[4 + i] = (u8)(kv_i(kv, "bl", 1) >> (24 - 8 * i)); h[8 + i] = (u8)(sl >> (24 - 8 * i)); }
    rs_signature_t *sig = NULL; rs_job_t *j = rs_loadsig_begin(&sig); rs_buffers_t b; memset(&b, 0, sizeof b);
    size_t chunk = 4096; u8 *w = xmalloc(chunk * el + 8);
    b.next_in = (char *)h; b.avail_in = 12; b.eof_in = n == 0;
    int r = rs_job_iter(j, &b);
    while (r == RS_BLOCKED && done < n) {
        size_t k = n - done < chunk ? n - done : chunk;
        for (size_t i = 0; i < k; i++) {
            u8 *e = w + i * el;
            for (size_t q = 0; q < el; q += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(e + q, &x, el - q < 8 ? el - q : 8); }
        }
        while (at + 8 + el <= en->n) {
            uint64_t ix = 0; for (int i = 0; i < 8; i++) ix = ix << 8 | en->p[at + (size_t)i];
            if (ix >= done + k) break;
            memcpy(w + (ix - done) * el, en->p + at + 8, el); at += 8 + el;
        }
        done += k; b.next_in = (char *)w; b.avail_in = k * el; b.eof_in = done == n;
        r = rs_job_iter(j, &b);
        if (b.avail_in) break;
    }
    rs_job_free(j); free(w);
    fprintf(OUT, ",\"lres\":%d,\"left\":%zu", r, b.avail_in);
    if (r == RS_DONE && sig && rs_build_hash_table(sig) == RS_DONE) {
        j = rs_delta_begin(sig); size_t on = in->n * 2 + 1000; u8 *o = xmalloc(on);
        memset(&b, 0, sizeof b); b.next_in = (char *)in->p; b.avail_in = in->n; b.eof_in = 1; b.next_out = (char *)o; b.avail_out = on;
        r = rs_job_iter(j, &b); rs_job_free(j);
        fprintf(OUT, ",\"res\":%d,\"hex\":\"", r); put_hex(o, on - b.avail_out); fprintf(OUT, "\""); free(o);
    }
    if (sig) rs_free_sumset(sig);
}

/* op "oom": signature, load, index, two deltas and patch in a process of its own in which the failat-th
   allocation of the library (and the next, fails of them) fails; calls that report it are made again */
#ifdef COUNT_ALLOC
#include <sys/wait.h>
#include <sys/resource.h>
extern long vf_failat, vf_fails, *vf_failp;
typedef struct { char name[12]; int res, right; long f0, f1, l0, l1; } stg_t;
static struct oom { long fails, msgs; int n; char open[12]; stg_t st[200]; } *OM;
static void oom_msg(rs_loglevel l, char const *m) { (void)m; if (((int)l & 7) <= RS_LOG_ERR) OM->msgs++; }
static void stg_begin(const char *nm) { stg_t *s = &OM->st[OM->n]; strcpy(s->name, nm); strcpy(OM->open, nm); s->f0 = OM->fails; s->l0 = vf_live; }
static int stg_end(int res, int right) { stg_t *s = &OM->st[OM->n]; s->res = res; s->right = right; s->f1 = OM->fails; s->l1 = vf_live; OM->open[0] = 0; OM->n++; return res; }
typedef struct { int file; size_t is, os, bl, sl; rs_magic_number magic; blob_t old, nw, sig, delta; } oom_t;
static rs_result oom_copy(void *a, rs_long_t pos, size_t *len, void **buf)
{
    blob_t *b = a; if ((size_t)pos >= b->n) return RS_INPUT_ENDED;
    if (*len > b->n - (size_t)pos) *len = b->n - (size_t)pos;
    memcpy(*buf, b->p + pos, *len); return RS_DONE;
}
static int oom_iter(rs_job_t *j, oom_t *o, blob_t *in, vec_t *out)
{
    size_t pos = 0; int r, idle = 0; u8 *ob = xmalloc(o->os);
    do {
        rs_buffers_t b; memset(&b, 0, sizeof b); size_t n = in->n - pos; if (n > o->is) n = o->is;
        u8 *ib = xmalloc(n + 1); memcpy(ib, in->p + pos, n);
        b.next_in = (char *)ib; b.avail_in = n; b.eof_in = pos + n == in->n; b.next_out = (char *)ob; b.avail_out = o->os;
        r = rs_job_iter(j, &b);
        idle = n - b.avail_in || o->os - b.avail_out ? 0 : idle + 1;
        if (out) vec_add(out, ob, o->os - b.avail_out);
        pos += n - b.avail_in; free(ib);
    } while (r == RS_BLOCKED && idle < 100);
    free(ob); return r;
}
static void slurp(FILE *f, vec_t *v) { fflush(f); rewind(f); u8 b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) vec_add(v, b, n); fclose(f); }
static int oom_sig(oom_t *o, vec_t *out)
{
    if (o->file) { FILE *f = mkfile(&o->old), *g = tmpfile(); int r = rs_sig_file(f, g, o->bl, o->sl, o->magic, NULL); fclose(f); slurp(g, out); return r; }
    rs_job_t *j = rs_sig_begin(o->bl, o->sl, o->magic); if (!j) return RS_MEM_ERROR;
    int r = oom_iter(j, o, &o->old, out); rs_job_free(j); return r;
}
static int oom_load(oom_t *o, rs_signature_t **s)
{
    int r; *s = NULL;
    if (o->file) { FILE *f = mkfile(&o->sig); r = rs_loadsig_file(f, s, NULL); fclose(f); }
    else { rs_job_t *j = rs_loadsig_begin(s); if (!j) return RS_MEM_ERROR; r = oom_iter(j, o, &o->sig, NULL); rs_job_free(j); }
    if (r != RS_DONE && *s) { rs_free_sumset(*s); *s = NULL; }
    return r;
}
static int oom_delta(oom_t *o, rs_signature_t *s, vec_t *out)
{
    if (o->file) { FILE *f = mkfile(&o->nw), *g = tmpfile(); int r = rs_delta_file(s, f, g, NULL); fclose(f); slurp(g, out); return r; }
    rs_job_t *j = rs_delta_begin(s); if (!j) return RS_MEM_ERROR;
    int r = oom_iter(j, o, &o->nw, out); rs_job_free(j); return r;
}
static int oom_patch(oom_t *o, vec_t *out)
{
    if (o->file) { FILE *b = mkfile(&o->old), *f = mkfile(&o->delta), *g = tmpfile(); int r = rs_patch_file(b, f, g, NULL); fclose(b); fclose(f); slurp(g, out); return r; }
    rs_job_t *j = rs_patch_begin(oom_copy, &o->old); if (!j) return RS_MEM_ERROR;
    int r = oom_iter(j, o, &o->delta, out); rs_job_free(j); return r;
}
static int same(vec_t *v, blob_t *b) { return v->n == b->n && (!v->n || !memcmp(v->p, b->p, v->n)); }
static void oom_child(oom_t *o, int lazy)
{
    int r, t; rs_signature_t *s = NULL; long live = vf_live; vec_t v = { 0 };
#define TRY(nm, call, ok) for (t = 0; t < 12; t++) { v.n = 0; stg_begin(nm); r = call; if (stg_end(r, r == RS_DONE && (ok)) != RS_MEM_ERROR) break; } if (r != RS_DONE) return
    TRY("sig", oom_sig(o, &v), same(&v, &o->sig));
    TRY("load", oom_load(o, &s), s != NULL);
    for (t = 0; t < 12; t++) {
        stg_begin("index"); r = rs_build_hash_table(s);
        if (stg_end(r, r == RS_DONE) != RS_MEM_ERROR) break;
        if (lazy) { stg_begin("free"); rs_free_sumset(s); stg_end(0, vf_live == live); return; }
    }
    if (r != RS_DONE) return;
    TRY("delta", oom_delta(o, s, &v), same(&v, &o->delta));
    TRY("delta", oom_delta(o, s, &v), same(&v, &o->delta));
    TRY("patch", oom_patch(o, &v), same(&v, &o->nw));
    stg_begin("free"); rs_free_sumset(s); stg_end(0, vf_live == live);
    vec_free(&v);
}
static void op_oom(kv_t *kv)
{
    oom_t o; memset(&o, 0, sizeof o); vec_t vs = { 0 }, vd = { 0 }, vn = { 0 }; rs_signature_t *s;
    o.file = (int)kv_i(kv, "file", 0); o.is = (size_t)kv_i(kv, "is", 1 << 16); o.os = (size_t)kv_i(kv, "os", 1 << 16);
    o.bl = (size_t)kv_i(kv, "bl", 4); o.sl = (size_t)kv_i(kv, "sl", 8); o.magic = (rs_magic_number)kv_i(kv, "magic", 0);
    o.old = *blob(kv_s(kv, "old", "-")); o.nw = *blob(kv_s(kv, "new", "-"));
    rs_inbuflen = (int)kv_i(kv, "inbuf", 0); rs_outbuflen = (int)kv_i(kv, "outbuf", 0);
    int ok = oom_sig(&o, &vs) == RS_DONE; o.sig.p = vs.p; o.sig.n = vs.n;
    ok = ok && oom_load(&o, &s) == RS_DONE && rs_build_hash_table(s) == RS_DONE && oom_delta(&o, s, &vd) == RS_DONE; o.delta.p = vd.p; o.delta.n = vd.n;
    if (ok) rs_free_sumset(s);
    ok = ok && oom_patch(&o, &vn) == RS_DONE && same(&vn, &o.nw);
    fprintf(OUT, ",\"sane\":%d", ok);
    OM = mmap(NULL, sizeof *OM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (OM == MAP_FAILED) die("mmap%s", "");
    fflush(OUT); signal(SIGCHLD, SIG_DFL);
    pid_t p = fork(); if (p < 0) die("fork%s", "");
    if (!p) {
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); signal(SIGPROF, SIG_DFL);
        struct itimerval it = { {0, 0}, {10, 0} }; setitimer(ITIMER_PROF, &it, NULL);
        rs_trace_to(oom_msg); rs_trace_set_level(RS_LOG_ERR);
        vf_failp = &OM->fails; vf_fails = kv_i(kv, "fails", 1); vf_failat = kv_i(kv, "failat", 0);
        oom_child(&o, (int)kv_i(kv, "lazy", 0)); _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    signal(SIGCHLD, SIG_IGN);
    fprintf(OUT, ",\"status\":%d,\"end\":\"%s\",\"msgs\":%ld,\"fails\":%ld,\"open\":\"%s\",\"st\":[", st, WIFEXITED(st) && !WEXITSTATUS(st) ? "exit" : WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? "abort" : "other", OM->msgs, OM->fails, OM->open);
    for (int i = 0; i < OM->n; i++) { stg_t *g = &OM->st[i]; fprintf(OUT, "%s[\"%s\",%d,%d,%ld,%ld,%ld]", i ? "," : "", g->name, g->res, g->right, g->f0, g->f1, g->l1 - g->l0); }
    fprintf(OUT, "]");
    munmap(OM, sizeof *OM); rs_inbuflen = rs_outbuflen = 0; vec_free(&vs); vec_free(&vd); vec_free(&vn);
}
#endif

/* op "fapi": a history of the file helpers in a directory and a process of its own */
#include <sys/wait.h>
#include <sys/resource.h>
static const char *FA_NAMES[] = { NULL, "-", "", "f", "n", "d", "p/x", "e", "s", "in", "out" };
static struct fapi { long msgs; int opening; size_t n, good; char t[200000]; } *FA;      /* good: end of the last complete event */
static void fa_msg(rs_loglevel l, char const *m) { (void)m; if (((int)l & 7) <= RS_LOG_ERR) FA->msgs++; }
static void fa_put(const char *fmt, ...) { va_list a; va_start(a, fmt); if (FA->n + 1000 < sizeof FA->t) FA->n += (size_t)vsnprintf(FA->t + FA->n, 900, fmt, a); va_end(a); }
static void fa_snap(void)
{
    fa_put(",\"fs\":[");
    for (int i = 3; i <= 10; i++) {
        struct stat st; const char *nm = i == 8 ? "e" : FA_NAMES[i];       /* the link itself holds nothing */
        fa_put("%s[", i > 3 ? "," : "");
        if (i == 8) ;
        else if (lstat(nm, &st)) fa_put("-1");
        else if (!S_ISREG(st.st_mode)) fa_put("-2");
        else { int fd = open(nm, O_RDONLY); u8 b[200]; ssize_t n = fd < 0 ? 0 : read(fd, b, sizeof b); if (fd >= 0) close(fd); for (ssize_t q = 0; q < n; q++) fa_put("%s%d", q ? "," : "", b[q]); }
        fa_put("]");
    }
    fa_put("]}");
}
static void fa_child(FILE *ops, int buffered)
{
    FILE *h[8]; int nh = 0; long k, a, b, c; int step = 0;
    static const char *MODE[] = { "rb", "wb", "w+b", "r+b" };
    while (fscanf(ops, "%ld %ld %ld %ld", &k, &a, &b, &c) == 4) {
        fa_put("%s{", step ? "," : "");
        if (k == 1) {
            FA->opening = 1; FILE *f = rs_file_open(FA_NAMES[a], MODE[b], (int)c); FA->opening = 0;
            fa_put("\"o\":\"%s\",\"v\":0,\"b\":[],\"w\":0", !f ? "none" : f == stdin ? "in" : f == stdout ? "out" : "file");
            if (f && f != stdin && !buffered) setvbuf(f, NULL, _IONBF, 0);
            h[++nh] = f;
        } else if (k == 2) {
            u8 w[8]; for (long i = 0; i < b; i++) w[i] = (u8)(32 + 8 * step + i + 1);
            fseek(h[a], 0, SEEK_END); size_t n = fwrite(w, 1, (size_t)b, h[a]); if (fflush(h[a])) n = 99;
            fa_put("\"o\":\"\",\"v\":%zu,\"b\":[],\"w\":0", n);
        } else if (k == 3) fa_put("\"o\":\"\",\"v\":%d,\"b\":[],\"w\":0", rs_file_close(h[a]));
        else if (k == 4) fa_put("\"o\":\"\",\"v\":%lld,\"b\":[],\"w\":0", (long long)rs_file_size(h[a]));
        else {
            u8 w[64]; memset(w, 0xE7, sizeof w); size_t n = (size_t)c; void *p = w;
            int r = rs_file_copy_cb(h[a], (rs_long_t)b, &n, &p); int over = 0;
            if (r == RS_DONE) { if (n > 64) { n = 64; over = 1; } if (p != w) memmove(w, p, n); else for (size_t i = n; i < 64; i++) over |= w[i] != 0xE7; }
            else { n = 0; for (size_t i = (size_t)c; i < 64; i++) over |= w[i] != 0xE7; }
            fa_put("\"o\":\"\",\"v\":%d,\"b\":[", r); for (size_t i = 0; i < n; i++) fa_put("%s%d", i ? "," : "", w[i]); fa_put("],\"w\":%d", over);
        }
        fa_snap(); step++; FA->good = FA->n;
    }
}
static void fa_file(const char *n, const char *s) { FILE *f = fopen(n, "wb"); if (!f || fputs(s, f) < 0 || fclose(f)) die("scratch file %s", n); }
static void op_fapi(kv_t *kv)
{
    char dir[600]; snprintf(dir, sizeof dir, "%s/fapiXXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); if (!mkdtemp(dir)) die("mkdtemp%s", "");
    FILE *ops = fopen(kv_s(kv, "ops", ""), "r"); if (!ops) die("ops%s", "");
    FA = mmap(NULL, sizeof *FA, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (FA == MAP_FAILED) die("mmap%s", "");
    fflush(OUT); signal(SIGCHLD, SIG_DFL);
    pid_t p = fork(); if (p < 0) die("fork%s", "");
    if (!p) {
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl); signal(SIGPROF, SIG_DFL);
        struct itimerval it = { {0, 0}, {5, 0} }; setitimer(ITIMER_PROF, &it, NULL); alarm(20);
        for (int q = 3; q < 64; q++) if (q != fileno(ops)) close(q);         /* nothing of the driver's is touched at exit */
        if (chdir(dir)) _exit(99);
        fa_file("f", "\13\14\15\16\17"); fa_file("e", ""); fa_file("in", "\25\26\27"); fa_file("out", "");
        if (mkdir("d", 0700) || symlink("f", "s")) _exit(99);
        int i = open("in", O_RDONLY), o = open("out", O_WRONLY | O_APPEND);
        /* whatever is opened with no name, or not at all, must not reach the streams of the driver */
        if (i < 0 || o < 0 || dup2(i, 0) < 0 || dup2(o, 1) < 0) _exit(99);
        close(i); close(o); setvbuf(stdin, NULL, _IONBF, 0);
        rs_trace_to(fa_msg); rs_trace_set_level(RS_LOG_ERR);
        fa_child(ops, (int)kv_i(kv, "buffered", 0)); fflush(NULL); _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    signal(SIGCHLD, SIG_IGN);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99) die("scratch directory%s", "");
    int fd = open(".", O_RDONLY); if (fd < 0 || chdir(dir)) die("chdir%s", "");
    if (FA->opening && WIFEXITED(st)) { fa_put("\"o\":\"exit\",\"v\":0,\"b\":[],\"w\":0"); fa_snap(); } else FA->n = FA->good;
    static const char *rmn[] = { "f", "e", "in", "out", "n", "s" };
    for (int i = 0; i < 6; i++) unlink(rmn[i]);
    rmdir("d"); if (fchdir(fd)) die("chdir%s", ""); close(fd); rmdir(dir);
    fprintf(OUT, ",\"status\":%d,\"code\":%d,\"msgs\":%ld,\"obs\":[%.*s]", st, WIFEXITED(st) ? WEXITSTATUS(st) : -1, FA->msgs, (int)FA->n, FA->t);
    munmap(FA, sizeof *FA); fclose(ops);
}

static void on_prof(int sig)
{
    (void)sig;
    char m[64]; int n = snprintf(m, sizeof m, "H %d\n", CUR);
    ssize_t w = write(fileno(OUT), m, (size_t)n); (void)w;
    _exit(91);
}
static void quiet(rs_loglevel l, char const *m) { (void)l; (void)m; }

/* diagnostics of one scenario: the first messages, and the first errors */
static struct { int l; char t[200]; } MSG[60]; static int NMSG; static long ALLMSG, WORST[8];
static void keepmsg(rs_loglevel l, char const *m)
{
    ALLMSG++;
    int lv = (int)l & 7; if (NMSG < 60 && (WORST[lv] < 8 || lv <= 3)) { MSG[NMSG].l = (int)l; snprintf(MSG[NMSG++].t, sizeof MSG[0].t, "%s", m); }
    WORST[lv]++;
}
static void put_str(const char *t)
{
    fprintf(OUT, "\"");
    for (; *t; t++) if (*t == '\n') fprintf(OUT, "\\n"); else if (*t >= 32 && *t < 127 && *t != '"' && *t != '\\') fputc(*t, OUT); else fputc('?', OUT);
    fprintf(OUT, "\"");
}
static void put_msgs(void)
{
    fprintf(OUT, ",\"nmsg\":%ld,\"msgs\":[", ALLMSG);
    for (int i = 0; i < NMSG; i++) { fprintf(OUT, "%s[%d,", i ? "," : "", MSG[i].l); put_str(MSG[i].t); fprintf(OUT, "]"); }
    fprintf(OUT, "]");
}
/* op "dump": the messages of rs_sumset_dump */
static void op_dump(kv_t *kv)
{
    int r; rs_signature_t *sig = load_sig(blob(kv_s(kv, "sig", "-")), &r);
    fprintf(OUT, ",\"res\":%d,\"bad\":%d", r, !sig);
    if (sig) { rs_trace_to(keepmsg); rs_trace_set_level(RS_LOG_INFO); memset(WORST, 0, sizeof WORST); WORST[6] = -100; NMSG = 0; ALLMSG = 0; rs_sumset_dump(sig); put_msgs(); rs_free_sumset(sig); }
}

int main(int argc, char **argv)
{
    if (argc < 3) return 90;
    FILE *f = fopen(argv[1], "r"); if (!f) die("open %s", argv[1]);
    OUT = fopen(argv[2], "a"); if (!OUT) die("open %s", argv[2]);
    int start = argc > 3 ? atoi(argv[3]) : 0;
    if (getenv("DRV_CPU")) CPU_LIMIT = atoi(getenv("DRV_CPU"));
    rs_trace_to(quiet); rs_trace_set_level(RS_LOG_ERR);
    signal(SIGPROF, on_prof); signal(SIGCHLD, SIG_IGN);
    char *line = NULL; size_t cap = 0; int idx = 0;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] == '#' || line[0] == '\n') continue;
        if (!strncmp(line, "def ", 4)) { if (NDEF == MAXDEF) die("too many defs%s", ""); kv_parse(&DEF[NDEF++], line); continue; }
        if (idx < start) { idx++; continue; }
        CUR = idx;
        fprintf(OUT, "B %d\n", idx); fflush(OUT);
        struct itimerval it = { {0, 0}, {CPU_LIMIT, 0} }; setitimer(ITIMER_PROF, &it, NULL);
        kv_t kv; kv_parse(&kv, line); LIVE0 = vf_live;
        fprintf(OUT, "{\"n\":%d,\"id\":\"%s\",\"op\":\"%s\"", idx, kv_s(&kv, "id", ""), kv.op);
        long lev = kv_i(&kv, "loglevel", -1); const char *snk = kv_s(&kv, "sink", "keep");
        rs_trace_to(quiet); rs_trace_set_level(RS_LOG_ERR);
        if (lev >= 0) { NMSG = 0; ALLMSG = 0; memset(WORST, 0, sizeof WORST); rs_trace_set_level((rs_loglevel)lev); rs_trace_to(!strcmp(snk, "none") ? NULL : !strcmp(snk, "stderr") ? rs_trace_stderr : keepmsg); }
        if (!strcmp(kv.op, "job")) op_job(&kv);
        else if (!strcmp(kv.op, "dump")) op_dump(&kv);
        else if (!strcmp(kv.op, "rt")) op_rt(&kv);
        else if (!strcmp(kv.op, "file")) op_file(&kv);
        else if (!strcmp(kv.op, "bigf")) op_bigf(&kv);
        else if (!strcmp(kv.op, "drive")) op_drive(&kv);
        else if (!strcmp(kv.op, "multi")) op_multi(&kv);
        else if (!strcmp(kv.op, "win")) op_win(&kv);
#ifdef COUNT_ALLOC
        else if (!strcmp(kv.op, "oom")) op_oom(&kv);
#endif
        else if (!strcmp(kv.op, "fapi")) op_fapi(&kv);
        else if (!strcmp(kv.op, "farsig")) op_farsig(&kv);
        else if (!strcmp(kv.op, "threads")) op_threads(&kv);
        else die("unknown op %s", kv.op);
        if (lev >= 0) put_msgs();
        fprintf(OUT, "}\n"); fflush(OUT);
        free(kv.line); idx++;
    }
    free(line);
    for (int i = 0; i < NDEF; i++) free(DEF[i].line);
    for (int i = 0; i < NBL; i++) bfree(&BL[i]);
    fprintf(OUT, "E %d\n", idx); fclose(OUT); fclose(f);
    return 0;
}
