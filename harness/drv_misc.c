/* Scenario interpreter for the building blocks: rolling checksums, the hash
   table, MD4, text conversions, signature parameters.  Same protocol as drv.c. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "librsync.h"
#include "checksum.h"
#include "mdfour.h"
#include "trace.h"

typedef unsigned char u8;
static FILE *OUT;
static int CUR;
static void die(const char *m) { fprintf(stderr, "drv_misc: %s (scenario %d)\n", m, CUR); exit(90); }
static void *xmalloc(size_t n) { void *p = malloc(n ? n : 1); if (!p) die("memory"); return p; }
#define MAXKV 32
typedef struct { char *op, *k[MAXKV], *v[MAXKV], *line; int n; } kv_t;
static void kv_parse(kv_t *kv, const char *line)
{
    kv->line = strdup(line); kv->n = 0; kv->op = ""; int first = 1; char *sv;
    for (char *t = strtok_r(kv->line, " \n", &sv); t; t = strtok_r(NULL, " \n", &sv)) {
        if (first) { kv->op = t; first = 0; continue; }
        char *e = strchr(t, '='); if (!e || kv->n == MAXKV) die("token");
        *e = 0; kv->k[kv->n] = t; kv->v[kv->n++] = e + 1;
    }
}
static const char *kv_s(kv_t *kv, const char *k, const char *d) { for (int i = 0; i < kv->n; i++) if (!strcmp(kv->k[i], k)) return kv->v[i]; return d; }
static long long kv_i(kv_t *kv, const char *k, long long d) { const char *s = kv_s(kv, k, NULL); return s ? (long long)strtoull(s, NULL, 0) : d; }
static u8 *slurp(const char *path, size_t *n)
{
    *n = 0; if (!path || !strcmp(path, "-")) return xmalloc(0);
    FILE *f = fopen(path, "rb"); if (!f) die("blob"); struct stat st; fstat(fileno(f), &st);
    u8 *p = xmalloc((size_t)st.st_size); *n = (size_t)st.st_size; if (fread(p, 1, *n, f) != *n) die("blob read"); fclose(f); return p;
}
static void put_hex(const u8 *p, size_t n) { for (size_t i = 0; i < n; i++) fprintf(OUT, "%02x", p[i]); }

/* ---- weak: ops on a window over the bytes of `in`.
   uN append N bytes, i one byte in, o oldest out, r slide by one, z reset, d report */
static void op_weak(kv_t *kv)
{
    int kind = (int)kv_i(kv, "kind", 0); size_t n; u8 *p = slurp(kv_s(kv, "in", "-"), &n);
    size_t a = 0, b = 0;        /* window is p[a..b) */
    Rollsum rs; rabinkarp_t rk; weaksum_t ws; RollsumInit(&rs); rabinkarp_init(&rk); weaksum_init(&ws, kind ? RS_RABINKARP : RS_ROLLSUM);
    FILE *f = fopen(kv_s(kv, "ops", ""), "r"); if (!f) die("ops");
    char tok[32]; int first = 1, bad = 0; int every = (int)kv_i(kv, "every", 1);
    fprintf(OUT, ",\"steps\":[");
    while (fscanf(f, "%31s", tok) == 1) {
        size_t k = 0;
        switch (tok[0]) {
        case 'u': k = strtoull(tok + 1, NULL, 10); if (b + k > n) die("window");
            /* an exactly sized copy, so that reading beyond it is noticed */
            { u8 *c = xmalloc(k); memcpy(c, p + b, k);
            if (kind) rabinkarp_update(&rk, c, k); else RollsumUpdate(&rs, c, k); weaksum_update(&ws, c, k); free(c); } b += k; break;
        case 'i': if (kind) rabinkarp_rollin(&rk, p[b]); else RollsumRollin(&rs, p[b]); weaksum_rollin(&ws, p[b]); b++; break;
        case 'o': if (kind) rabinkarp_rollout(&rk, p[a]); else RollsumRollout(&rs, p[a]); weaksum_rollout(&ws, p[a]); a++; break;
        case 'r': if (kind) rabinkarp_rotate(&rk, p[a], p[b]); else RollsumRotate(&rs, p[a], p[b]); weaksum_rotate(&ws, p[a], p[b]); a++; b++; break;
        case 'z': if (kind) rabinkarp_init(&rk); else RollsumInit(&rs); weaksum_reset(&ws); a = b; break;
        case 'd': case 'q': break;
        case 'm': { k = strtoull(tok + 1, NULL, 10); u8 *z = mmap(NULL, k + 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) die("mmap");
            if (kind) rabinkarp_update(&rk, z, k); else RollsumUpdate(&rs, z, k);
            weaksum_update(&ws, z, k); munmap(z, k + 1); break; }
        case 'w': k = strtoull(tok + 1, NULL, 10); if (kind) rabinkarp_rollin(&rk, (u8)k); else RollsumRollin(&rs, (u8)k); weaksum_rollin(&ws, (u8)k); break;
        case 'y': k = strtoull(tok + 1, NULL, 10); if (kind) rabinkarp_rollout(&rk, (u8)k); else RollsumRollout(&rs, (u8)k); weaksum_rollout(&ws, (u8)k); break;
        case 't': { char *q; k = strtoull(tok + 1, &q, 10); size_t k2 = strtoull(q + 1, NULL, 10); if (kind) rabinkarp_rotate(&rk, (u8)k, (u8)k2); else RollsumRotate(&rs, (u8)k, (u8)k2); weaksum_rotate(&ws, (u8)k, (u8)k2); break; }
        default: die("weak op");
        }
        uint32_t d = kind ? rabinkarp_digest(&rk) : RollsumDigest(&rs); size_t c = kind ? rk.count : rs.count;
        /* the wrapper agrees with a fresh computation over the window */
        if (tok[0] == 'd' || every) {
            weaksum_t fr; weaksum_init(&fr, ws.kind); weaksum_update(&fr, p + a, b - a);
            if (weaksum_digest(&fr) != weaksum_digest(&ws) || weaksum_count(&ws) != b - a || weaksum_count(&fr) != b - a) bad = 1;
            uint32_t cs = rs_calc_weak_sum(ws.kind, p + a, b - a);
            if (cs != d) bad |= 2;
            fprintf(OUT, "%s[\"%s\",%zu,%u,%u]", first ? "" : ",", tok, c, d >> 16, d & 0xffff); first = 0;
        }
    }
    if (tok[0] == 'q') {         /* only the running sums, both interfaces */
        uint32_t d = kind ? rabinkarp_digest(&rk) : RollsumDigest(&rs); size_t c = kind ? rk.count : rs.count;
        if (weaksum_count(&ws) != c) bad = 1;
        fprintf(OUT, "%s[\"q\",%zu,%u,%u]", first ? "" : ",", c, d >> 16, d & 0xffff);
    }
    fclose(f); free(p);
    fprintf(OUT, "],\"bad\":%d", bad);
}

/* ---- hash table.  keys have a hash and a class; entries with the same class compare equal */
typedef struct { unsigned h; int cls; } hk_t;
typedef struct { hk_t key; int id; } he_t;
typedef struct { hk_t key; int cls; } hm_t;
static unsigned hk_hash(hk_t const *k) { return k->h; }
static int hm_cmp(hm_t *m, he_t const *e) { return m->key.cls - e->key.cls; }
#define ENTRY he
#define KEY hk
#define MATCH hm
#define NAME hmix
#include "hashtable.h"
#define HASHTABLE_NMIX32
#define ENTRY he
#define KEY hk
#define MATCH hm
#define NAME hraw
#include "hashtable.h"
static void op_ht(kv_t *kv)
{
    int mix = (int)kv_i(kv, "mix", 0), size = (int)kv_i(kv, "size", 1);
    FILE *f = fopen(kv_s(kv, "ops", ""), "r"); if (!f) die("ops");
    hashtable_t *t = mix ? hmix_new(size) : hraw_new(size);
    if (!t) { fprintf(OUT, ",\"nomem\":1,\"bad\":0"); fclose(f); return; }
    int cap = (int)kv_i(kv, "maxent", 4096), ne = 0; he_t *es = xmalloc(sizeof(he_t) * (size_t)cap);
    char op[8]; unsigned h; int cls; int first = 1, bad = 0;
    fprintf(OUT, ",\"ops\":[");
    while (fscanf(f, "%7s", op) == 1) {
        if (!first) fprintf(OUT, ","); first = 0;
        if (op[0] == 'a') {
            if (fscanf(f, "%u %d", &h, &cls) != 2 || ne == cap) die("ht add");
            he_t *e = &es[ne]; e->key.h = h; e->key.cls = cls; e->id = ne;
            he_t *r = mix ? hmix_add(t, e) : hraw_add(t, e);
            if (r && r != e) bad = 1;
            fprintf(OUT, "[\"a\",%u,%u,%d,%d]", h >> 16, h & 0xffff, cls, r ? ne : -1);
            ne++;
        } else if (op[0] == 'f') {
            if (fscanf(f, "%u %d", &h, &cls) != 2) die("ht find");
            hm_t m; m.key.h = h; m.key.cls = cls; m.cls = cls;
            he_t *r = mix ? hmix_find(t, &m) : hraw_find(t, &m);
            fprintf(OUT, "[\"f\",%u,%u,%d,%d]", h >> 16, h & 0xffff, cls, r ? r->id : -1);
        } else if (op[0] == 'i') {
            int it; fprintf(OUT, "[\"i\",0,0,0"); long cnt = 0;
            for (he_t *e = mix ? hmix_iter(t, &it) : hraw_iter(t, &it); e; e = mix ? hmix_next(t, &it) : hraw_next(t, &it)) { fprintf(OUT, ",%d", e->id); if (++cnt > ne + 5) { bad = 1; break; } }
            fprintf(OUT, "]");
        } else if (op[0] == 's') { mix ? hmix_stats_init(t) : hraw_stats_init(t); fprintf(OUT, "[\"s\",0,0,0]"); }
        else die("ht op");
    }
    fclose(f); free(es); mix ? hmix_free(t) : hraw_free(t);
    fprintf(OUT, "],\"bad\":%d", bad);
}

/* ---- big table: entry k has hash k*mult+base; every entry looked up, and `miss` absent ones; some lookups listed */
static void op_htbig(kv_t *kv)
{
    int mix = (int)kv_i(kv, "mix", 0), size = (int)kv_i(kv, "size", 1), n = (int)kv_i(kv, "n", 1), miss = (int)kv_i(kv, "miss", 0), step = (int)kv_i(kv, "step", 1);
    unsigned mult = (unsigned)kv_i(kv, "mult", 1), base = (unsigned)kv_i(kv, "base", 0);
    hashtable_t *t = mix ? hmix_new(size) : hraw_new(size);
    if (!t) { fprintf(OUT, ",\"nomem\":1,\"bad\":0"); return; }
    he_t *es = xmalloc(sizeof(he_t) * (size_t)n); u8 *seen = xmalloc((size_t)n); memset(seen, 0, (size_t)n);
    int refused = 0, wrong = 0, dup = 0, strange = 0; long visited = 0;
    for (int k = 0; k < n; k++) { es[k].key.h = (unsigned)k * mult + base; es[k].key.cls = 1; es[k].id = k; if ((mix ? hmix_add(t, &es[k]) : hraw_add(t, &es[k])) != &es[k]) refused++; }
    fprintf(OUT, ",\"finds\":["); int first = 1;
    for (int k = 0; k < n + miss; k++) {
        hm_t m; m.key.h = (unsigned)k * mult + base; m.key.cls = 1; m.cls = 1;
        he_t *r = mix ? hmix_find(t, &m) : hraw_find(t, &m); int id = r ? r->id : -1;
        if (id != (k < n ? k : -1)) wrong++;
        if (k % step == 0 || (id != (k < n ? k : -1) && wrong < 5)) { fprintf(OUT, "%s[%d,%u,%u,%d]", first ? "" : ",", k, m.key.h >> 16, m.key.h & 0xffff, id); first = 0; }
    }
    int it;
    for (he_t *e = mix ? hmix_iter(t, &it) : hraw_iter(t, &it); e; e = mix ? hmix_next(t, &it) : hraw_next(t, &it)) {
        if (e < es || e >= es + n) { strange++; break; }
        if (seen[e - es]++) dup++;
        if (++visited > (long)n + 5) break;
    }
    fprintf(OUT, "],\"refused\":%d,\"wrong\":%d,\"dup\":%d,\"visited\":%ld,\"bad\":%d", refused, wrong, dup, visited, strange);
    mix ? hmix_free(t) : hraw_free(t); free(es); free(seen);
}

/* ---- md4: parts of `in` fed to a context; another context is fed in between */
static void op_md4(kv_t *kv)
{
    size_t n; u8 *p = slurp(kv_s(kv, "in", "-"), &n); u8 d[16], d2[16], d3[16];
    rs_mdfour_t a, b; memset(&a, 0xEE, sizeof a); memset(&b, 0x33, sizeof b);
    int inter = (int)kv_i(kv, "inter", 0);
    rs_mdfour_begin(&a); if (inter) rs_mdfour_begin(&b);
    size_t o = 0, o2 = 0; const char *s = kv_s(kv, "parts", "");
    while (*s) {
        size_t k = strtoull(s, (char **)&s, 10); if (*s == ',') s++;
        if (o + k > n) die("md4 parts");
        u8 *c = xmalloc(k); memcpy(c, p + o, k); rs_mdfour_update(&a, c, k); memset(c, 0x99, k); free(c); o += k;
        if (inter) { size_t q = n - o2 < 37 ? n - o2 : 37; rs_mdfour_update(&b, p + o2, q); o2 += q; }
    }
    if (inter) rs_mdfour_update(&b, p + o2, n - o2);
    rs_mdfour_result(&a, d); if (inter) rs_mdfour_result(&b, d3);
    rs_mdfour(d2, p, o);
    fprintf(OUT, ",\"inc\":\""); put_hex(d, 16); fprintf(OUT, "\",\"one\":\""); put_hex(d2, 16); fprintf(OUT, "\"");
    if (inter) { fprintf(OUT, ",\"other\":\""); put_hex(d3, 16); fprintf(OUT, "\""); }
    fprintf(OUT, ",\"bad\":%d", memcmp(d, d2, 16) ? 1 : 0); free(p);
}
/* long message: M = zero bytes (n of them), then the RFC padding of M, then tail.
   reports the digest of M and of the whole */
static void op_md4long(kv_t *kv)
{
    uint64_t n = (uint64_t)kv_i(kv, "n", 0), chunk = (uint64_t)kv_i(kv, "chunk", 1 << 24); size_t tn; u8 *t = slurp(kv_s(kv, "tail", "-"), &tn);
    u8 *z = mmap(NULL, chunk, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (z == MAP_FAILED) die("mmap");
    rs_mdfour_t a, b; u8 d[16], e[16]; rs_mdfour_begin(&a); 
    for (uint64_t left = n; left;) { uint64_t k = left < chunk ? left : chunk; rs_mdfour_update(&a, z, k); left -= k; }
    b = a; rs_mdfour_result(&b, d);
    u8 pad[136]; size_t pn = 0; pad[pn++] = 0x80; while ((n + pn) % 64 != 56) pad[pn++] = 0;
    for (int i = 0; i < 8; i++) pad[pn++] = (u8)((n * 8) >> (8 * i));
    rs_mdfour_update(&a, pad, pn); rs_mdfour_update(&a, t, tn); rs_mdfour_result(&a, e);
    fprintf(OUT, ",\"pn\":%zu,\"d\":\"", pn); put_hex(d, 16); fprintf(OUT, "\",\"e\":\""); put_hex(e, 16); fprintf(OUT, "\",\"bad\":0");
    munmap(z, chunk); free(t);
}
/* ---- textbig: n bytes by a formula to base64 and back; some groups are shown */
static u8 tb_byte(unsigned i) { return (u8)((i * 2654435761u) >> 24); }
static void op_textbig(kv_t *kv)
{
    int n = (int)kv_i(kv, "n", 0); unsigned seed = (unsigned)kv_i(kv, "seed", 1);
    size_t need = ((size_t)n * 8 + 5) / 6; u8 *p = xmalloc((size_t)n); char *o = xmalloc(need + 17); int bad = 0;
    for (int i = 0; i < n; i++) p[i] = tb_byte((unsigned)i + seed);
    memset(o, 0x2e, need + 17); rs_base64(p, n, o);
    size_t len = strnlen(o, need + 16); for (size_t i = need + 1; i < need + 17; i++) if (o[i] != 0x2e) bad = 1;
    fprintf(OUT, ",\"len\":%zu,\"groups\":[", len);
    for (int k = 0; k < 200; k++) {
        size_t g = k < 20 ? (size_t)k : k < 40 ? (size_t)(n / 3 - 1 - (k - 20)) : (size_t)(n / 3) * (size_t)(k - 40) / 160;
        if (4 * g + 4 > len) break;
        fprintf(OUT, "%s[[%u,%u,%u],[%u,%u,%u,%u]]", k ? "," : "", p[3 * g], p[3 * g + 1], p[3 * g + 2], (u8)o[4 * g], (u8)o[4 * g + 1], (u8)o[4 * g + 2], (u8)o[4 * g + 3]);
    }
    fprintf(OUT, "]"); size_t back = 0; int same = 0;
    if (len == need) { back = rs_unbase64(o); same = back == (size_t)n && !memcmp(o, p, (size_t)n); }
    fprintf(OUT, ",\"back\":%zu,\"same\":%d,\"bad\":%d", back, same, bad); free(p); free(o);
}
/* ---- text: exactly sized buffers with guard bytes */
static void op_text(kv_t *kv)
{
    size_t n; u8 *p = slurp(kv_s(kv, "in", "-"), &n); const char *w = kv_s(kv, "what", "");
    size_t need = !strcmp(w, "b64") ? (n * 8 + 5) / 6 + 1 : !strcmp(w, "hex") ? 2 * n + 1 : n + 1;
    /* one exactly sized buffer (sanitizers) or one with guard bytes */
    size_t G = 16; u8 *o = xmalloc(need + 2 * G); memset(o, 0xC3, need + 2 * G); size_t len = 0; int bad = 0;
    u8 *x = xmalloc(need); u8 *pc = xmalloc(n); memcpy(pc, p, n);
    if (!strcmp(w, "b64")) { rs_base64(pc, (int)n, (char *)o + G); len = strnlen((char *)o + G, need + G); rs_base64(pc, (int)n, (char *)x); }
    else if (!strcmp(w, "hex")) { rs_hexify((char *)o + G, pc, (int)n); len = strnlen((char *)o + G, need + G); rs_hexify((char *)x, pc, (int)n); }
    else { memcpy(o + G, p, n); o[G + n] = 0; len = rs_unbase64((char *)o + G); memcpy(x, p, n); x[n] = 0; size_t l2 = rs_unbase64((char *)x); if (l2 != len) bad = 1; if (len > n) { bad = 1; len = 0; } }
    if (memcmp(pc, p, n)) bad = 1;
    for (size_t i = 0; i < G; i++) if (o[i] != 0xC3 || o[G + need + i] != 0xC3) bad = 1;
    if (memcmp(x, o + G, len)) bad = 1;
    fprintf(OUT, ",\"len\":%zu,\"out\":\"", len); put_hex(o + G, len); fprintf(OUT, "\",\"bad\":%d", bad);
    free(o); free(x); free(pc); free(p);
}
static void op_sigargs(kv_t *kv)
{
    rs_magic_number m = (rs_magic_number)kv_i(kv, "magic", 0); size_t bl = (size_t)kv_i(kv, "bl", 0), sl = (size_t)kv_i(kv, "sl", 0);
    int r = rs_sig_args((rs_long_t)kv_i(kv, "size", -1), &m, &bl, &sl);
    fprintf(OUT, ",\"res\":%d,\"magic\":%u,\"bl\":%llu,\"sl\":%llu,\"bad\":0", r, (unsigned)m, (unsigned long long)bl, (unsigned long long)sl);
}

/* ---- fmt: printed statistics in a buffer of exactly `size` bytes ---- */
static void quiet(rs_loglevel l, char const *m);
static char logged[4096]; static int nlogged, loglev;
static void take(rs_loglevel l, char const *m) { nlogged++; loglev = (int)l; snprintf(logged, sizeof logged, "%s", m); }
static void put_str(const char *t, size_t max)
{
    fprintf(OUT, "\"");
    for (size_t i = 0; i < max && t[i]; i++) if (t[i] == '\n') fprintf(OUT, "\\n"); else if (t[i] >= 32 && t[i] < 127 && t[i] != '"' && t[i] != '\\') fputc(t[i], OUT); else fputc('?', OUT);
    fprintf(OUT, "\"");
}
static void op_fmt(kv_t *kv)
{
    rs_stats_t st; memset(&st, 0, sizeof st);
    st.op = kv_s(kv, "opname", NULL);
#define F(x) st.x = kv_i(kv, #x, 0)
    F(lit_cmds); F(lit_bytes); F(lit_cmdbytes); F(copy_cmds); F(copy_bytes); F(copy_cmdbytes); F(sig_cmds); F(sig_bytes); F(false_matches); F(sig_blocks); F(block_len); F(in_bytes); F(out_bytes); F(start); F(end);
    rs_stats_t keep = st;
    size_t size = (size_t)kv_i(kv, "size", 0), G = 2048;
    char *b = xmalloc(size + 2 * G); memset(b, 0x5C, size + 2 * G);
    char *r = rs_format_stats(&st, b + G, size);
    int over = r != b + G || memcmp(&keep, &st, sizeof st);
    for (size_t i = 0; i < G; i++) if (b[i] != 0x5C || b[G + size + i] != 0x5C) over = 1;
    if (size && !memchr(b + G, 0, size)) over = 1;
    fprintf(OUT, ",\"over\":%d,\"text\":", over); put_str(b + G, size ? size : 0); free(b);
    nlogged = 0; rs_trace_to(take); rs_trace_set_level(RS_LOG_INFO); rs_log_stats(&st); rs_trace_set_level(RS_LOG_ERR); rs_trace_to(quiet);
    fprintf(OUT, ",\"nlog\":%d,\"loglev\":%d,\"log\":", nlogged, loglev); put_str(nlogged ? logged : "", sizeof logged);
}

/* ---- log: a history of thresholds, sinks and messages ---- */
static struct { int s, l; char *t; } GOT[16]; static int NGOT;
static void got(int s, rs_loglevel l, char const *m) { if (NGOT < 16) { GOT[NGOT].s = s; GOT[NGOT].l = (int)l; GOT[NGOT++].t = strdup(m); } }
static void sink1(rs_loglevel l, char const *m) { got(1, l, m); }
static void sink2(rs_loglevel l, char const *m) { got(2, l, m); }
static void op_log(kv_t *kv)
{
    FILE *f = fopen(kv_s(kv, "ops", "-"), "r"); if (!f) die("ops");
    rs_trace_set_level(RS_LOG_INFO); rs_trace_to(sink1);
    char *line = NULL; size_t cap = 0; int first = 1, sink = 1;
    fprintf(OUT, ",\"bad\":0,\"got\":[");
    while (getline(&line, &cap, f) > 0) {
        line[strcspn(line, "\n")] = 0;
        int a = 0, k = atoi(line + 2), fd = -1; NGOT = 0; FILE *t = NULL;
        if (line[0] == '1') rs_trace_set_level((rs_loglevel)k);
        else if (line[0] == '2') { sink = k; rs_trace_to(k == 1 ? sink1 : k == 2 ? sink2 : k == 3 ? rs_trace_stderr : NULL); }
        else {                  /* 3 FLAGS FN MESSAGE, FN - for none */
            char fn[400]; int n = 0; sscanf(line + 2, "%d %399s %n", &k, fn, &n);
            if (sink == 3) { t = tmpfile(); fd = dup(2); dup2(fileno(t), 2); }
            rs_log0(k, strcmp(fn, "-") ? fn : "", "%s", line + 2 + n);
            if (sink == 3) {
                fflush(stderr); dup2(fd, 2); close(fd); long z = ftell(t); fseek(t, 0, SEEK_END); z = ftell(t); rewind(t);
                char *m = calloc(1, (size_t)z + 1); if (fread(m, 1, (size_t)z, t) != (size_t)z) die("stderr"); fclose(t);
                if (z) got(3, k & 7, m);
                free(m);
            }
        }
        fprintf(OUT, "%s[", first ? "" : ","); first = 0;
        for (a = 0; a < NGOT; a++) { fprintf(OUT, "%s[%d,%d,", a ? "," : "", GOT[a].s, GOT[a].l); put_str(GOT[a].t, 20000); fprintf(OUT, "]"); free(GOT[a].t); }
        fprintf(OUT, "]");
    }
    fprintf(OUT, "]"); free(line); fclose(f);
    rs_trace_set_level(RS_LOG_ERR); rs_trace_to(quiet);
}
static void op_err(void)
{
    static const int c[] = { 0, 1, 2, 100, 101, 102, 103, 104, 105, 106, 107, 108, 99, -1, 1000 };
    fprintf(OUT, ",\"bad\":0,\"texts\":[");
    for (size_t i = 0; i < sizeof c / sizeof *c; i++) { fprintf(OUT, "%s", i ? "," : ""); char const *t = rs_strerror((rs_result)c[i]); put_str(t ? t : "", 500); }
    fprintf(OUT, "]");
}

static void on_prof(int s) { (void)s; _exit(91); }
static void quiet(rs_loglevel l, char const *m) { (void)l; (void)m; }
int main(int argc, char **argv)
{
    if (argc < 3) return 90;
    FILE *f = fopen(argv[1], "r"); if (!f) die("scenarios");
    OUT = fopen(argv[2], "a"); if (!OUT) die("out");
    int start = argc > 3 ? atoi(argv[3]) : 0, cpu = getenv("DRV_CPU") ? atoi(getenv("DRV_CPU")) : 20;
    rs_trace_to(quiet); rs_trace_set_level(RS_LOG_ERR); signal(SIGPROF, on_prof);
    char *line = NULL; size_t cap = 0; int idx = 0;
    while (getline(&line, &cap, f) > 0) {
        if (line[0] == '#' || line[0] == '\n') continue;
        if (idx < start) { idx++; continue; }
        CUR = idx; fprintf(OUT, "B %d\n", idx); fflush(OUT);
        struct itimerval it = { {0, 0}, {cpu, 0} }; setitimer(ITIMER_PROF, &it, NULL);
        kv_t kv; kv_parse(&kv, line);
        fprintf(OUT, "{\"n\":%d,\"op\":\"%s\"", idx, kv.op);
        if (!strcmp(kv.op, "weak")) op_weak(&kv);
        else if (!strcmp(kv.op, "ht")) op_ht(&kv);
        else if (!strcmp(kv.op, "textbig")) op_textbig(&kv);
        else if (!strcmp(kv.op, "htbig")) op_htbig(&kv);
        else if (!strcmp(kv.op, "md4")) op_md4(&kv);
        else if (!strcmp(kv.op, "md4long")) op_md4long(&kv);
        else if (!strcmp(kv.op, "text")) op_text(&kv);
        else if (!strcmp(kv.op, "sigargs")) op_sigargs(&kv);
        else if (!strcmp(kv.op, "fmt")) op_fmt(&kv);
        else if (!strcmp(kv.op, "log")) op_log(&kv);
        else if (!strcmp(kv.op, "err")) op_err();
        else die("op");
        fprintf(OUT, "}\n"); fflush(OUT); free(kv.line); idx++;
    }
    free(line); fprintf(OUT, "E %d\n", idx); fclose(OUT); fclose(f); return 0;
}
