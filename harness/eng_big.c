// Large-scale engine harness: hundreds of thousands of entries in one shard (or
// few entries in very many shards), every phase judged against arrays that say
// for each key whether it is there, with which value, and until when.
//
//   eng_big --seed S --keys N --shards K --enforce LETTERS
//
// Oracle categories: V status/value  X expiry  I iteration  E eviction callbacks
//                    N notifications  A counts  M allocation balance
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#include <stdarg.h>
#include "pogocache.h"

static char enforce[64] = "VXIENAM";
static char phase[200] = "start";
static uint64_t st_ops, st_visits, st_iters, st_phases, st_evicted, st_max;

static uint64_t rs;
static uint64_t rnd(void) {
    uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t rn(uint64_t n) { return n ? rnd() % n : 0; }
static uint64_t mix(uint64_t z) { z ^= z >> 33; z *= 0xff51afd7ed558ccdull; z ^= z >> 29; return z; }

static void stats(int hist) {
    printf("STATS hist=%d abandoned=%d states=%" PRIu64 " ops=%" PRIu64 " comparisons=%" PRIu64 " visits=%" PRIu64
        " iterations=%" PRIu64 " expired_evictions=%" PRIu64 " maxcount=%" PRIu64 "\n",
        hist, !hist, st_phases, st_ops, st_ops, st_visits, st_iters, st_evicted, st_max);
    fflush(stdout);
}
static void fail(char cat, const char *fmt, ...) {
    va_list ap;
    if (!strchr(enforce, cat)) { stats(0); _Exit(0); }
    printf("FAIL cat=%c mode=big phase [%s]: ", cat, phase);
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("\n");
    fflush(stdout);
    _Exit(1);
}

static int N;
static uint32_t *ver;      // 0: absent
static uint32_t *last;     // its version before its removal was notified, until the eviction is reported
static int64_t *ex;        // 0: never
static uint32_t *seen, stamp;
static int64_t now = INT64_C(1000000) * 1000000000;
static size_t present;     // entries physically expected, as notifications say
static uint64_t c_ins, c_rep, c_del;
static uint64_t ev[4];
static size_t live_blocks, live_bytes;

static void *h_malloc(size_t n) {
    size_t *p = malloc(n + 16);
    if (!p) abort();
    p[0] = n;
    live_blocks++; live_bytes += n;
    return (char*)p + 16;
}
static void h_free(void *q) {
    if (!q) return;
    size_t *p = (size_t*)((char*)q - 16);
    live_blocks--; live_bytes -= p[0];
    free(p);
}

static int keystyle;
static size_t mkkey(int id, char *b) {
    if (keystyle == 0) return sprintf(b, "key:%d", id);
    if (keystyle == 1) { memcpy(b, &id, 4); return 4; }
    return sprintf(b, "%08x-Longer/Key_%d", (unsigned)mix(id), id);
}
static int idof(const void *k, size_t n) {
    char b[64], c[64];
    int id = -1;
    if (n >= sizeof(b)) return -1;
    memcpy(b, k, n); b[n] = 0;
    if (keystyle == 0) { if (n < 5) return -1; id = atoi(b + 4); }
    else if (keystyle == 1) { if (n != 4) return -1; memcpy(&id, b, 4); }
    else { char *p = strrchr(b, '_'); if (!p) return -1; id = atoi(p + 1); }
    if (id < 0 || id >= N) return -1;
    if (mkkey(id, c) != n || memcmp(c, k, n)) return -1;
    return id;
}
static size_t mkval(int id, uint32_t v, char *b) {
    uint64_t h = mix(((uint64_t)id << 20) ^ v * 0x9E3779B97F4A7C15ull);
    size_t n = h % 997 == 0 ? 400 : h % 23;
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) h = mix(h + i + 1); b[i] = (char)(h >> (i % 8 * 8)); }
    return n;
}
static uint32_t mkflags(int id, uint32_t v) { return (id + v) % 3 == 0 ? (uint32_t)mix(id + v) : 0; }
static bool alive(int id) { return ver[id] && (!ex[id] || ex[id] > now); }
static void judge(char cat, const char *who, int id, uint32_t v, const void *val, size_t vn, int64_t expires, uint32_t flags) {
    char b[512];
    size_t n = mkval(id, v, b);
    if (n != vn || memcmp(b, val, n)) fail(cat, "%s: entry %d carries another value (%zu bytes)", who, id, vn);
    if (flags != mkflags(id, v)) fail(cat, "%s: entry %d carries flags %u", who, id, flags);
    if (expires != ex[id]) fail(cat == 'V' ? 'X' : cat, "%s: entry %d carries expiry %" PRId64 " instead of %" PRId64, who, id, expires, ex[id]);
}

static struct pogocache *C;
static bool ev_ok[4];

static void on_evicted(int shard, int reason, int64_t time, const void *key, size_t kn, const void *val, size_t vn,
    int64_t expires, uint32_t flags, uint64_t cas, void *ud)
{
    (void)shard; (void)time; (void)cas; (void)ud;
    int id = idof(key, kn);
    if (reason < 1 || reason > 3 || !ev_ok[reason]) fail('E', "eviction for reason %d", reason);
    uint32_t v = id < 0 ? 0 : last[id] ? last[id] : ver[id];
    if (!v) fail('E', "eviction of a key that is not there (%zu bytes)", kn);
    judge('E', "evicted", id, v, val, vn, expires, flags);
    if (reason == 1 && (!ex[id] || ex[id] > now)) fail('X', "entry %d evicted as expired before its time", id);
    last[id] = 0;
    ev[reason]++; st_evicted++;
}
static void on_notify(int shard, int64_t time, struct pogocache_entry *ne, struct pogocache_entry *oe, void *ud) {
    (void)shard; (void)time; (void)ud;
    if (ne && oe) c_rep++; else if (ne) { c_ins++; present++; } else if (oe) { c_del++; present--; } else fail('N', "notification of nothing");
    if (oe && !ne) {
        char kb[128]; size_t kn;
        const void *k = pogocache_entry_key(C, oe, &kn, kb);
        int id = idof(k, kn);
        if (id < 0 || !ver[id]) fail('N', "removal of a key that is not there is notified");
        last[id] = ver[id];
        ver[id] = 0;
    }
}

struct got { int id; bool hit; };
static void on_load(int shard, int64_t time, const void *key, size_t kn, const void *val, size_t vn, int64_t expires,
    uint32_t flags, uint64_t cas, struct pogocache_update **up, void *ud)
{
    (void)shard; (void)time; (void)cas; (void)up;
    struct got *g = ud;
    if (idof(key, kn) != g->id) fail('V', "load of key %d shows another key", g->id);
    judge('V', "load", g->id, ver[g->id], val, vn, expires, flags);
    g->hit = true;
}
static void load1(int id) {
    char k[64];
    size_t kn = mkkey(id, k);
    struct got g = { id, false };
    struct pogocache_load_opts o = { .time = now, .entry = on_load, .udata = &g };
    bool a = alive(id);
    int s = pogocache_load(C, k, kn, &o);
    st_ops++;
    if (a ? s != POGOCACHE_FOUND || !g.hit : s != POGOCACHE_NOTFOUND || g.hit) fail('V', "load of key %d, %s, says %d", id, a ? "which is there" : ver[id] ? "which has expired" : "which is not there", s);
}
static void store1(int id, int64_t expires) {
    char k[64], v[512];
    size_t kn = mkkey(id, k);
    static uint32_t vn = 0;
    uint32_t nv = ++vn;
    size_t n = mkval(id, nv, v);
    struct pogocache_store_opts o = { .time = now, .expires = expires, .flags = mkflags(id, nv) };
    bool a = alive(id);
    ev_ok[1] = true;
    int s = pogocache_store(C, k, kn, v, n, &o);
    st_ops++;
    if (s != (a ? POGOCACHE_REPLACED : POGOCACHE_INSERTED)) fail('V', "store of key %d, %s, says %d", id, a ? "which is there" : "which is not there", s);
    ver[id] = nv; ex[id] = expires; last[id] = 0;
}
static void del1(int id) {
    char k[64];
    size_t kn = mkkey(id, k);
    struct pogocache_delete_opts o = { .time = now };
    bool a = alive(id);
    int s = pogocache_delete(C, k, kn, &o);
    st_ops++;
    if (s != (a ? POGOCACHE_DELETED : POGOCACHE_NOTFOUND)) fail('V', "delete of key %d, %s, says %d", id, a ? "which is there" : "which is not there", s);
    ver[id] = last[id] = 0;
}
static int it_del;         // delete the share of 1/it_del
static size_t it_seen, it_deleted;
static int on_iter(int shard, int64_t time, const void *key, size_t kn, const void *val, size_t vn, int64_t expires,
    uint32_t flags, uint64_t cas, void *ud)
{
    (void)shard; (void)time; (void)cas; (void)ud;
    int id = idof(key, kn);
    if (id < 0 || !alive(id)) fail('I', "iteration shows a key that is not there");
    if (seen[id] == stamp) fail('I', "iteration shows key %d twice", id);
    seen[id] = stamp; it_seen++; st_visits++;
    judge('I', "iteration", id, ver[id], val, vn, expires, flags);
    if (it_del && mix(id ^ stamp) % it_del == 0) { it_deleted++; last[id] = 0; return POGOCACHE_ITER_DELETE; }
    return POGOCACHE_ITER_CONTINUE;
}
static size_t nalive(void) { size_t n = 0; for (int i = 0; i < N; i++) n += alive(i); return n; }
static void iter_all(int del) {
    size_t want = nalive();
    stamp++; it_seen = it_deleted = 0; it_del = del; ev_ok[1] = true;
    struct pogocache_iter_opts o = { .time = now, .entry = on_iter };
    int s = pogocache_iter(C, &o);
    st_iters++;
    if (s != POGOCACHE_FINISHED) fail('I', "iteration says %d", s);
    if (it_seen != want) fail('I', "iteration showed %zu of %zu entries", it_seen, want);
    if (del) for (int i = 0; i < N; i++) if (seen[i] == stamp && mix(i ^ stamp) % del == 0 && ver[i]) fail('I', "entry %d deleted by the iteration was not notified", i);
}
static void scan_all(void) {
    size_t want = nalive(), n = 0, calls = 0;
    uint64_t cur = 0;
    stamp++;
    while (1) {
        struct pogocache_entry *e = pogocache_entry_iter(C, now, &cur);
        if (++calls > 4u * N + 300000) fail('I', "cursor iteration does not end");
        if (!e) break;
        char kb[128]; size_t kn;
        const void *k = pogocache_entry_key(C, e, &kn, kb);
        int id = idof(k, kn);
        if (id < 0 || !alive(id)) fail('I', "cursor iteration shows a key that is not there");
        if (seen[id] == stamp) fail('I', "cursor iteration shows key %d twice without changes", id);
        seen[id] = stamp; n++; st_visits++;
        size_t vn; const void *v = pogocache_entry_value(C, e, &vn);
        char b[512];
        if (mkval(id, ver[id], b) != vn || memcmp(b, v, vn)) fail('I', "cursor iteration: entry %d carries another value", id);
        pogocache_entry_release(C, e);
    }
    st_iters++;
    if (n != want) fail('I', "cursor iteration showed %zu of %zu entries", n, want);
}
static void counts(void) {
    struct pogocache_count_opts o = { .time = now };
    size_t c = pogocache_count(C, &o), a = nalive();
    if (c > st_max) st_max = c;
    if (c < a) fail('A', "count is %zu although %zu entries are alive", c, a);
    if (c != present) fail('A', "count is %zu and the notifications say %zu", c, present);
    struct pogocache_size_opts so = { .time = now, .entriesonly = true };
    size_t z = pogocache_size(C, &so);
    if (a && z < a * 2) fail('A', "size is %zu for %zu entries", z, a);
    if (!c && z) fail('A', "size is %zu without entries", z);
    if (z > live_bytes) fail('A', "size is %zu although only %zu bytes are allocated", z, live_bytes);
}
static void sweep(void) {
    size_t a = nalive(), sw = 0, kept = 0, before = present;
    struct pogocache_sweep_opts o = { .time = now };
    uint64_t e0 = ev[1];
    ev_ok[1] = true;
    pogocache_sweep(C, &sw, &kept, &o);
    if (kept != a) fail('X', "sweep kept %zu entries, %zu are alive", kept, a);
    if (sw != before - a) fail('X', "sweep removed %zu entries, %zu had expired", sw, before - a);
    if (ev[1] - e0 != sw) fail('E', "sweep removed %zu entries and reported %" PRIu64 " evictions", sw, ev[1] - e0);
    if (present != a) fail('N', "after the sweep the notifications leave %zu entries, %zu are alive", present, a);
}
static void clear(void) {
    size_t before = present;
    uint64_t e0 = ev[3], x0 = ev[1];
    struct pogocache_clear_opts o = { .time = now, .deferfree = rn(2) };
    ev_ok[1] = ev_ok[3] = true;
    pogocache_clear(C, &o);
    ev_ok[3] = false;
    if (ev[3] - e0 + ev[1] - x0 != before) fail('E', "clear removed %zu entries and reported %" PRIu64 " evictions", before, ev[3] - e0 + ev[1] - x0);
    if (present) fail('N', "after the clear the notifications leave %zu entries", present);
    for (int i = 0; i < N; i++) if (ver[i]) fail('N', "the clear of key %d was not notified", i);
    struct pogocache_count_opts co = { .time = now };
    if (pogocache_count(C, &co)) fail('A', "entries remain after a clear");
}

int main(int argc, char **argv) {
    uint64_t seed = 1; int shards = 1;
    N = 1000;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i+1], 0, 10);
        else if (!strcmp(argv[i], "--keys")) N = atoi(argv[i+1]);
        else if (!strcmp(argv[i], "--shards")) shards = atoi(argv[i+1]);
        else if (!strcmp(argv[i], "--enforce")) snprintf(enforce, sizeof(enforce), "%s", argv[i+1]);
    }
    rs = seed * 0x9E3779B97F4A7C15ull + N;
    N += rn(N / 8);
    keystyle = rn(3);
    ver = calloc(N, sizeof(*ver)); last = calloc(N, sizeof(*last)); ex = calloc(N, sizeof(*ex)); seen = calloc(N, sizeof(*seen));
    struct pogocache_opts o = { .malloc = h_malloc, .free = h_free, .evicted = on_evicted, .notify = on_notify,
        .nshards = shards, .loadfactor = 55 + rn(41), .allowshrink = rn(2), .usecas = rn(2), .nosixpack = rn(2), .seed = rnd() };
    C = pogocache_new(&o);
    // fill, reading back some of the keys as the table grows
    snprintf(phase, sizeof(phase), "fill of %d keys over %d shards", N, shards);
    for (int i = 0; i < N; i++) {
        int id = (int)((uint64_t)i * 7919 % N);
        if (ver[id]) id = i;
        store1(id, rn(4) ? 0 : now + 1 + (int64_t)rn(INT64_C(100) * 1000000000));
        if (i % 16 == 0) load1((int)rn(N));
    }
    st_phases++; counts(); 
    for (int i = 0; i < N; i++) load1(i);
    for (int round = 0; round < 7; round++) {
        int kind = round < 4 ? round : (int)rn(6);
        st_phases++;
        switch (kind) {
        case 0: snprintf(phase, sizeof(phase), "round %d iteration", round); iter_all(0); scan_all(); break;
        case 1: snprintf(phase, sizeof(phase), "round %d replacing and deleting", round);
            for (int i = 0; i < N / 2; i++) { int id = (int)rn(N); if (rn(2)) store1(id, rn(3) ? 0 : now + 1 + (int64_t)rn(INT64_C(200) * 1000000000)); else del1(id); }
            for (int i = 0; i < N; i++) load1(i);
            break;
        case 2: snprintf(phase, sizeof(phase), "round %d expiry", round);
            now += INT64_C(50) * 1000000000;
            if (rn(2)) scan_all();
            if (rn(2)) for (int i = 0; i < N; i += 3) load1(i);
            sweep(); counts();
            for (int i = 0; i < N; i++) load1(i);
            break;
        case 3: snprintf(phase, sizeof(phase), "round %d deleting iteration", round);
            iter_all(2 + rn(3)); iter_all(0); scan_all(); break;
        case 4: snprintf(phase, sizeof(phase), "round %d deletion down to few", round);
            for (int i = 0; i < N; i++) if (rn(20)) del1(i);
            for (int i = 0; i < N; i++) load1(i);
            scan_all(); iter_all(0); break;
        default: snprintf(phase, sizeof(phase), "round %d clear", round);
            clear();
            for (int i = 0; i < N; i += 7) load1(i);
            for (int i = 0; i < N; i += 2) store1(i, 0);
            scan_all(); break;
        }
        counts();
    }
    snprintf(phase, sizeof(phase), "end");
    clear();
    pogocache_free(C);
    if (live_blocks) fail('M', "%zu blocks (%zu bytes) are left after the cache was freed", live_blocks, live_bytes);
    stats(1);
    return 0;
}
