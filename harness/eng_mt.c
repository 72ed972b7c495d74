// Multi-threaded engine harness. Threads run seeded programs over few keys of
// one cache; everything they observe is recorded at the call boundary and judged
// offline after each round (per-key linearizability), plus online monitors for
// notifications, retained entries, batch isolation, accounting.
//
//   eng_mt --mode lin|pair|counter|cas|notify|storm --seed S --rounds N --threads T --enforce LETTERS
//
// Letters: L linearizability  R read-modify-write/conservation  C cas
//          T batch isolation  N notifications  M memory  A accounting  I iteration
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include "pogocache.h"

static char enforce[32] = "LRCTNMAI";
static char mode[16] = "lin";
static uint64_t cur_round_seed;
static pthread_mutex_t fail_mu = PTHREAD_MUTEX_INITIALIZER;
static uint64_t st_rounds, st_ops, st_overlap, st_keys_checked, st_search, st_incon, st_visits, st_inter;
static uint64_t bloom[1<<14];
static void note_inter(uint64_t h) { h *= 0x9E3779B97F4A7C15ull; h ^= h>>29; uint32_t i = (h>>3) & ((1<<20)-1); if (!(bloom[i>>6]>>(i&63)&1)) { bloom[i>>6] |= 1ull<<(i&63); st_inter++; } }
static atomic_ullong st_notes, st_yields, st_delays, st_retains, st_pairs_ok, st_changed, st_cas_won, st_cas_lost;

static void fail(char cat, const char *fmt, ...) {
    if (!strchr(enforce, cat)) return;
    pthread_mutex_lock(&fail_mu);
    printf("FAIL cat=%c mode=%s round=%" PRIu64 ": ", cat, mode, cur_round_seed);
    va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("\n"); fflush(stdout); _Exit(1);
}

// ---- per-thread rng (also used inside callbacks) ------------------------------
static __thread uint64_t trs = 88172645463325252ull;
static uint64_t rnd(void) {
    uint64_t z = (trs += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
}
static uint64_t rn(uint64_t n) { return n ? rnd()%n : 0; }
static bool pct(int p) { return (int)rn(100) < p; }
static int delay_pct = 10;
static void delay(void) {
    if (!pct(delay_pct)) return;
    atomic_fetch_add_explicit(&st_delays, 1, memory_order_relaxed);
    switch (rn(8)) {
    case 0: case 1: sched_yield(); break;
    case 2: usleep(rn(60)); break;
    default: for (volatile int i = rn(1500); i > 0; i--) {} 
    }
}
static int64_t nowns(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (int64_t)t.tv_sec*1000000000+t.tv_nsec; }

// ---- allocator: balance, delays ------------------------------------------------
static atomic_llong live_blocks;
static void *h_malloc(size_t n) { delay(); void *p = malloc(n?n:1); memset(p, 0xA5, n); atomic_fetch_add_explicit(&live_blocks,1,memory_order_relaxed); return p; }
static void h_free(void *p) { if (!p) return; delay(); atomic_fetch_sub_explicit(&live_blocks,1,memory_order_relaxed); free(p); }
static void cb_yield(void *u) { (void)u; atomic_fetch_add_explicit(&st_yields,1,memory_order_relaxed); sched_yield(); }

// ---- keys ------------------------------------------------------------------------
#define NKMAX 64
static char keyname[NKMAX][32]; static int keylen[NKMAX]; static int nkeys; static int keyshard[NKMAX];
static struct pogocache *cache;
static int nthreads = 4;
static bool usecas, thbatch, use_notify; static int nshards;
static int64_t T0 = 1000000; // fixed logical time of all operations

static int key_index(const void *k, size_t n) {
    for (int i = 0; i < nkeys; i++) if ((size_t)keylen[i] == n && memcmp(keyname[i], k, n) == 0) return i;
    return -1;
}

// values: "v<id>;" repeated so that a torn value is visible
static size_t mkval(char *buf, uint32_t id) { 
    char one[16]; int n = snprintf(one, sizeof one, "v%u;", id); int rep = 1 + id%23; size_t o = 0;
    for (int i = 0; i < rep; i++) { memcpy(buf+o, one, n); o += n; }
    return o;
}
static uint32_t rdval(const void *p, size_t n) { // 0 = torn
    char buf[512]; 
    if (n < 3 || n >= sizeof buf) return 0;
    memcpy(buf, p, n); buf[n] = 0;
    if (buf[0] != 'v') return 0;
    uint32_t id = strtoul(buf+1, 0, 10); char want[512]; size_t wn = mkval(want, id);
    return wn == n && memcmp(want, buf, n) == 0 ? id : 0;
}

// ---- notifications: shadow per key, updated under the engine's shard lock ------------
static void *shadow[NKMAX]; static uint32_t shadow_id[NKMAX];
struct held { struct pogocache_entry *e; uint32_t id; int k; };
static __thread struct held helds[64]; static __thread int nheld;
static void cb_notify(int shard, int64_t time, struct pogocache_entry *ne, struct pogocache_entry *oe, void *u) {
    (void)time, (void)u;
    atomic_fetch_add_explicit(&st_notes,1,memory_order_relaxed);
    delay();
    struct pogocache_entry *any = ne ? ne : oe;
    char buf[128]; size_t kn, vn; const void *kp = pogocache_entry_key(cache, any, &kn, buf);
    int k = key_index(kp, kn);
    if (k < 0) { fail('N', "notification for an unknown key"); return; }
    if (shard != keyshard[k]) fail('N', "notification with shard %d for a key of shard %d", shard, keyshard[k]);
    if (oe != shadow[k]) fail('N', "key %d: old entry of the notification is not the one the previous notifications left", k);
    if (oe) { const void *vp = pogocache_entry_value(cache, oe, &vn); if (rdval(vp,vn) != shadow_id[k]) fail('N', "key %d: removed entry's value changed since it was announced", k); }
    uint32_t id = 0;
    if (ne) { const void *vp = pogocache_entry_value(cache, ne, &vn); id = rdval(vp, vn); if (!id) fail('N', "announced value is torn"); }
    shadow[k] = ne; shadow_id[k] = id;
    struct pogocache_entry *re = pct(50) ? ne : oe;
    if (re && nheld < 60 && pct(15)) {
        const void *vp = pogocache_entry_value(cache, re, &vn);
        pogocache_entry_retain(cache, re); helds[nheld++] = (struct held){ re, rdval(vp,vn), k };
        atomic_fetch_add_explicit(&st_retains,1,memory_order_relaxed);
    }
    delay();
}
static void release_some(bool all) {
    while (nheld && (all || pct(50))) {
        struct held h = helds[--nheld]; size_t kn, vn; char buf[128];
        const void *kp = pogocache_entry_key(cache, h.e, &kn, buf);
        if (key_index(kp,kn) != h.k) fail('M', "retained entry's key changed");
        const void *vp = pogocache_entry_value(cache, h.e, &vn);
        if (rdval(vp,vn) != h.id) fail('M', "retained entry's value changed");
        pogocache_entry_release(cache, h.e);
    }
}
static atomic_ullong ev_count[4];
static void cb_evicted(int shard, int reason, int64_t time, const void *key, size_t kn, const void *val, size_t vn,
    int64_t expires, uint32_t flags, uint64_t cas, void *u)
{
    (void)shard,(void)time,(void)expires,(void)flags,(void)cas,(void)u;
    if (key_index(key,kn) < 0) fail('N', "evicted callback for an unknown key");
    if (reason < 1 || reason > 3) fail('N', "evicted with reason %d", reason);
    else atomic_fetch_add_explicit(&ev_count[reason], 1, memory_order_relaxed);
    if (!rdval(val,vn)) fail('N', "evicted callback with a torn value");
}

// ---- recorded operations ---------------------------------------------------------------
enum { O_LOAD, O_SET, O_NX, O_XX, O_CAS, O_DEL, O_RMW, O_PEEK, O_ABSENT /*store already expired*/, O_CLEAR, O_DELIF };
static const char *opname[] = {"load","set","set-nx","set-xx","set-cas","delete","update","getset","set-expired","clear","delete-if"};
struct op { int kind, k, status; uint32_t id, seen, want; uint64_t cas; int64_t t0, t1; int th; bool flag, casok; };
#define OPMAX 4096
struct thr { pthread_t t; int i; uint64_t seed; struct op ops[OPMAX]; int n; uint64_t casof[64]; uint32_t casid[64]; int ncas; };
static struct thr thr[16];
static pthread_barrier_t bar;
static atomic_uint next_id;
static atomic_bool have_clear;

struct ldctx { uint32_t seen; uint64_t cas; uint32_t newid; bool upd; struct pogocache_update u; char buf[512]; int calls; bool keep; };
static void cb_load(int shard, int64_t time, const void *key, size_t kn, const void *v, size_t vn, int64_t exp, uint32_t fl,
    uint64_t cas, struct pogocache_update **up, void *udata)
{
    (void)shard,(void)time,(void)key,(void)kn,(void)exp,(void)fl;
    struct ldctx *c = udata; c->calls++; c->seen = rdval(v,vn); c->cas = cas;
    if (!c->seen) fail('L', "torn value read");
    delay();
    if (c->upd) { size_t n = mkval(c->buf, c->newid); c->u = (struct pogocache_update){ .value = c->buf, .valuelen = n, .flags = fl, .expires = exp }; *up = &c->u; }
}
static bool cb_peek(int shard, int64_t time, const void *key, size_t kn, const void *v, size_t vn, int64_t exp, uint32_t fl, uint64_t cas, void *udata) {
    (void)shard,(void)time,(void)key,(void)kn,(void)exp,(void)fl;
    struct ldctx *c = udata; c->calls++; c->seen = rdval(v,vn); c->cas = cas;
    if (!c->seen) fail('L', "torn value read");
    delay();
    return !c->keep;
}
static int cb_iter(int shard, int64_t time, const void *key, size_t kn, const void *v, size_t vn, int64_t exp, uint32_t fl, uint64_t cas, void *udata) {
    (void)shard,(void)time,(void)exp,(void)fl,(void)cas;
    uint32_t *seen = udata; int k = key_index(key,kn);
    if (k < 0) { fail('I', "iteration returned an unknown key"); return 0; }
    if (seen[k]) fail('I', "iteration returned key %d twice", k);
    seen[k] = rdval(v,vn);
    if (!seen[k]) fail('L', "torn value iterated");
    return POGOCACHE_ITER_CONTINUE;
}
static void rec(struct thr *t, struct op o) { if (t->n < OPMAX) { o.th = t->i; t->ops[t->n++] = o; } }

static uint32_t newid(void) { return atomic_fetch_add_explicit(&next_id, 1, memory_order_relaxed); }

static void do_op(struct thr *t, struct pogocache *c, int k) {
    struct op o = { .k = k }; char buf[512]; size_t n; struct ldctx lc = {0};
    struct pogocache_load_opts lo = { .time = T0, .entry = cb_load, .udata = &lc, .notouch = pct(50) };
    struct pogocache_store_opts so = { .time = T0 };
    int r = rn(100);
    if (r < 30) {
        o.kind = O_LOAD; o.t0 = nowns(); o.status = pogocache_load(c, keyname[k], keylen[k], &lo); o.t1 = nowns(); o.seen = lc.seen; o.cas = lc.cas;
        if (usecas && o.status == POGOCACHE_FOUND && t->ncas < 64) { t->casof[t->ncas] = lc.cas; t->casid[t->ncas++] = lc.seen<<6|k; }
    } else if (r < 40) {
        lc.upd = true; lc.newid = newid(); o.kind = O_RMW; o.id = lc.newid;
        o.t0 = nowns(); o.status = pogocache_load(c, keyname[k], keylen[k], &lo); o.t1 = nowns(); o.seen = lc.seen; o.cas = lc.cas;
    } else if (r < 52) {
        o.kind = O_DEL; struct pogocache_delete_opts d = { .time = T0 };
        if (pct(40)) { o.kind = O_DELIF; d.entry = cb_peek; d.udata = &lc; lc.keep = pct(50); o.flag = lc.keep; }
        o.t0 = nowns(); o.status = pogocache_delete(c, keyname[k], keylen[k], &d); o.t1 = nowns(); o.seen = lc.seen; o.cas = lc.cas;
    } else {
        o.id = newid(); n = mkval(buf, o.id);
        if (r < 66) o.kind = O_SET;
        else if (r < 72) { o.kind = O_NX; so.nx = true; }
        else if (r < 78) { o.kind = O_XX; so.xx = true; }
        else if (r < 86 && usecas && t->ncas) {
            int j = rn(t->ncas); 
            if (pct(70)) j = t->ncas-1;
            o.k = k = t->casid[j]&63; o.want = t->casid[j]>>6; o.kind = O_CAS; so.casop = true; so.cas = t->casof[j];
        } else if (r < 94) { o.kind = O_PEEK; so.entry = cb_peek; so.udata = &lc; lc.keep = pct(40); o.flag = lc.keep; }
        else if (r < 97) { o.kind = O_ABSENT; so.expires = T0 - 1; }
        else o.kind = O_SET;
        o.t0 = nowns(); o.status = pogocache_store(c, keyname[k], keylen[k], buf, n, &so); o.t1 = nowns(); o.seen = lc.seen; o.cas = lc.cas;
    }
    o.casok = lc.calls > 0;
    rec(t, o);
}

// ---- linearizability search (one key) -------------------------------------------------
// state: id of the current value, 0 = absent
struct casmap { uint32_t id; uint64_t cas; };
static bool apply(struct op *o, uint32_t s, uint32_t *ns) {
    *ns = s;
    switch (o->kind) {
    case O_LOAD: return s ? o->status == POGOCACHE_FOUND && o->seen == s : o->status == POGOCACHE_NOTFOUND;
    case O_RMW: if (s) { *ns = o->id; return o->status == POGOCACHE_FOUND && o->seen == s; } return o->status == POGOCACHE_NOTFOUND;
    case O_DEL: *ns = 0; return o->status == (s ? POGOCACHE_DELETED : POGOCACHE_NOTFOUND);
    case O_DELIF: if (!s) return o->status == POGOCACHE_NOTFOUND; 
        if (o->seen != s) return false;
        if (o->flag) return o->status == POGOCACHE_CANCELED;
        *ns = 0; return o->status == POGOCACHE_DELETED;
    case O_SET: *ns = o->id; return o->status == (s ? POGOCACHE_REPLACED : POGOCACHE_INSERTED);
    case O_ABSENT: *ns = 0; return o->status == (s ? POGOCACHE_REPLACED : POGOCACHE_INSERTED);
    case O_NX: if (s) return o->status == POGOCACHE_FOUND; *ns = o->id; return o->status == POGOCACHE_INSERTED;
    case O_XX: if (!s) return o->status == POGOCACHE_NOTFOUND; *ns = o->id; return o->status == POGOCACHE_REPLACED;
    case O_CAS: if (!s) return o->status == POGOCACHE_NOTFOUND; 
        if (s != o->want) return o->status == POGOCACHE_FOUND;
        *ns = o->id; return o->status == POGOCACHE_REPLACED;
    case O_PEEK: if (!s) { *ns = o->id; return o->status == POGOCACHE_INSERTED; }
        if (o->seen != s) return false;
        if (o->flag) return o->status == POGOCACHE_CANCELED;
        *ns = o->id; return o->status == POGOCACHE_REPLACED;
    case O_CLEAR: *ns = 0; return true;
    }
    return false;
}
struct memo { uint64_t mask; uint32_t s; bool used; };
#define MEMO (1<<16)
static struct memo memo[MEMO]; static int memon; static uint64_t budget;
static struct op *L[64]; static int Ln; static uint64_t pred[64];
static int lin(uint64_t mask, uint32_t s, uint32_t final, bool havefinal) { // 1 ok 0 no -1 unknown
    if (mask == (Ln == 64 ? ~0ull : (1ull<<Ln)-1)) return !havefinal || s == final;
    if (budget-- == 0) return -1;
    uint64_t h = (mask*0x9E3779B97F4A7C15ull) ^ ((uint64_t)s*0xD1B54A32D192ED03ull); h ^= h>>31; h &= MEMO-1;
    while (memo[h].used) { if (memo[h].mask == mask && memo[h].s == s) return 0; h = (h+1)&(MEMO-1); }
    st_search++;
    int res = 0;
    for (int i = 0; i < Ln; i++) {
        if (mask>>i&1 || (pred[i] & ~mask)) continue;
        uint32_t ns; if (!apply(L[i], s, &ns)) continue;
        int r = lin(mask | 1ull<<i, ns, final, havefinal);
        if (r) return r;
    }
    (void)res;
    if (memon < MEMO*3/4) { 
        h = (mask*0x9E3779B97F4A7C15ull) ^ ((uint64_t)s*0xD1B54A32D192ED03ull); h ^= h>>31; h &= MEMO-1;
        while (memo[h].used) h = (h+1)&(MEMO-1);
        memo[h] = (struct memo){mask,s,true}; memon++;
    }
    return 0;
}
static void dump_key(int k, uint32_t init, uint32_t final) {
    int64_t base = INT64_MAX; for (int i=0;i<Ln;i++) if (L[i]->t0 < base) base = L[i]->t0;
    printf("key %d initial v%u final v%u\n", k, init, final);
    for (int i=0;i<Ln;i++) printf("  th%d [%lld,%lld] %s id=v%u seen=v%u want=v%u status=%d flag=%d\n", L[i]->th, (long long)(L[i]->t0-base), (long long)(L[i]->t1-base),
        opname[L[i]->kind], L[i]->id, L[i]->seen, L[i]->want, L[i]->status, L[i]->flag);
}
// cas of every value ever observed in the run, per key
#define CM (1<<16)
static struct { uint32_t id; int k; uint64_t cas; } casobs[CM]; 
static uint32_t init_state[NKMAX];
static void note_cas(int k, uint32_t id, uint64_t cas) {
    if (!usecas || !id) return;
    uint64_t h = ((uint64_t)id*2654435761u + k) & (CM-1);
    if (casobs[h].id == id && casobs[h].k == k) {
        if (casobs[h].cas != cas) fail('C', "key %d value v%u was read with cas %" PRIu64 " and %" PRIu64, k, id, casobs[h].cas, cas);
        return;
    }
    casobs[h].id = id; casobs[h].k = k; casobs[h].cas = cas;
}
static int cmp_cas(const void *a, const void *b) { const uint64_t *x = a, *y = b; return x[0]<y[0]?-1:x[0]>y[0]; }

static uint32_t cur_value(int k, uint64_t *cas) {
    struct ldctx lc = {0}; struct pogocache_load_opts lo = { .time = T0, .entry = cb_load, .udata = &lc };
    int s = pogocache_load(cache, keyname[k], keylen[k], &lo);
    if (cas) *cas = lc.cas;
    return s == POGOCACHE_FOUND ? lc.seen : 0;
}
static void judge_round(void) {
    for (int k = 0; k < nkeys; k++) {
        Ln = 0; bool too_many = false; uint64_t cas = 0; 
        uint64_t pairs[128][2]; int np = 0;
        for (int t = 0; t < nthreads; t++) for (int i = 0; i < thr[t].n; i++) if (thr[t].ops[i].k == k || thr[t].ops[i].kind == O_CLEAR) {
            struct op *o = &thr[t].ops[i];
            if (Ln == 64) { too_many = true; break; }
            L[Ln++] = o;
            if (o->seen && o->casok) { note_cas(k, o->seen, o->cas); if (np < 128) { pairs[np][0] = o->cas; pairs[np++][1] = o->seen; } }
            if (o->kind == O_CAS) atomic_fetch_add(o->status == POGOCACHE_REPLACED ? &st_cas_won : &st_cas_lost, 1);
        }
        uint32_t fin = cur_value(k, &cas); note_cas(k, fin, cas);
        if (usecas) { // different values of a key never share a version
            qsort(pairs, np, sizeof pairs[0], cmp_cas);
            for (int i = 1; i < np; i++) if (pairs[i][0] == pairs[i-1][0] && pairs[i][1] != pairs[i-1][1])
                fail('C', "key %d: two different values (v%u, v%u) were seen with the same cas %" PRIu64, k, (uint32_t)pairs[i-1][1], (uint32_t)pairs[i][1], pairs[i][0]);
        }
        if (strchr(enforce,'C')) { // at most one winner per observed version
            for (int i = 0; i < Ln; i++) for (int j = i+1; j < Ln; j++)
                if (L[i]->kind == O_CAS && L[j]->kind == O_CAS && L[i]->want == L[j]->want && L[i]->status == POGOCACHE_REPLACED && L[j]->status == POGOCACHE_REPLACED) {
                    dump_key(k, init_state[k], fin); fail('C', "two CAS stores naming the same version of key %d both succeeded", k); }
        }
        if (too_many) { st_incon++; init_state[k] = fin; continue; }
        for (int i = 0; i < Ln; i++) { pred[i] = 0; for (int j = 0; j < Ln; j++) if (i != j) {
            if (L[j]->t1 < L[i]->t0 || (L[j]->th == L[i]->th && L[j] < L[i])) pred[i] |= 1ull<<j; 
            else if (!(L[i]->t1 < L[j]->t0) && L[i]->th != L[j]->th && i < j) st_overlap++; } }
        if (Ln > 1) { // shape of the observed interleaving: operations, statuses and their real-time order
            uint64_t h = 7; for (int i = 0; i < Ln; i++) { h = h*1099511628211ull + L[i]->kind*977 + L[i]->status*131 + L[i]->th; h ^= pred[i]*0x9E3779B97F4A7C15ull; h ^= h>>27; } note_inter(h); }
        memset(memo, 0, sizeof memo); memon = 0; budget = 400000;
        int r = lin(0, init_state[k], fin, true);
        st_keys_checked++;
        if (r < 0) st_incon++;
        else if (r == 0) {
            if (strchr(enforce,'L')) dump_key(k, init_state[k], fin);
            fail('L', "history of key %d is not linearizable (%d operations)", k, Ln);
        }
        if (fin != init_state[k]) atomic_fetch_add(&st_changed, 1);
        init_state[k] = fin;
    }
}

// ---- modes -------------------------------------------------------------------------------
static int ops_per_round;
static void *lin_thread(void *arg) {
    struct thr *t = arg; trs = t->seed; t->n = 0;
    pthread_barrier_wait(&bar);
    for (int i = 0; i < ops_per_round; i++) {
        delay();
        int x = rn(100);
        if (x < 4) { // iteration reads every key
            uint32_t seen[NKMAX] = {0}; struct pogocache_iter_opts io = { .time = T0, .entry = cb_iter, .udata = seen };
            int64_t a = nowns(); pogocache_iter(cache, &io); int64_t b = nowns();
            for (int k = 0; k < nkeys; k++) rec(t, (struct op){ .kind = O_LOAD, .k = k, .t0 = a, .t1 = b, .seen = seen[k], .status = seen[k] ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND });
            // (these reads are concurrent with each other, one per key: program order per key holds)
        } else if (x < 6) { size_t sw, kp; pogocache_sweep(cache, &sw, &kp, &(struct pogocache_sweep_opts){ .time = T0 }); }
        else if (x < 7) { pogocache_sweep_poll(cache, &(struct pogocache_sweep_poll_opts){ .time = T0 }); }
        else if (x < 9) { size_t n = pogocache_count(cache, &(struct pogocache_count_opts){ .time = T0 }); if (n > (size_t)nkeys) fail('A', "count %zu with %d keys", n, nkeys); pogocache_size(cache, 0); pogocache_total(cache, 0); }
        else if (x < 10 && atomic_load(&have_clear)) {
            int64_t a = nowns(); pogocache_clear(cache, &(struct pogocache_clear_opts){ .time = T0, .deferfree = pct(50) }); int64_t b = nowns();
            rec(t, (struct op){ .kind = O_CLEAR, .k = -1, .t0 = a, .t1 = b, .status = 0 });
        } else if (x < 20) { // batch on one key: two operations nothing may get between
            int k = rn(nkeys); struct ldctx lc = {0}; char buf[512];
            struct pogocache_load_opts lo = { .time = T0, .entry = cb_load, .udata = &lc };
            struct op o = { .kind = O_RMW, .k = k, .id = newid(), .t0 = nowns() };
            struct pogocache *b = pogocache_begin(cache);
            int st = pogocache_load(b, keyname[k], keylen[k], &lo);
            delay();
            if (st == POGOCACHE_FOUND) {
                size_t n = mkval(buf, o.id); 
                int s2 = pogocache_store(b, keyname[k], keylen[k], buf, n, &(struct pogocache_store_opts){ .time = T0 });
                if (s2 != POGOCACHE_REPLACED) fail('T', "store in a batch returned %d right after a load found the key", s2);
                delay();
                lc.calls = 0; uint32_t was = lc.seen; st = pogocache_load(b, keyname[k], keylen[k], &lo);
                if (st != POGOCACHE_FOUND || lc.seen != o.id) fail('T', "batch does not read its own write");
                lc.seen = was;
            }
            pogocache_end(b); o.t1 = nowns(); o.status = st; o.seen = lc.seen; o.cas = 0;
            rec(t, o);
        } else do_op(t, cache, rn(nkeys));
        if (pct(10)) release_some(false);
    }
    release_some(true);
    return 0;
}

// pair mode: k0,k1 (any shards, common order) always hold equal counters outside batches
static uint32_t rd_in(struct pogocache *c, int k) { struct ldctx lc = {0}; struct pogocache_load_opts lo = { .time = T0, .entry = cb_load, .udata = &lc }; return pogocache_load(c, keyname[k], keylen[k], &lo) == POGOCACHE_FOUND ? lc.seen : 0; }
static void wr_in(struct pogocache *c, int k, uint32_t id) { char buf[512]; size_t n = mkval(buf, id); int s = pogocache_store(c, keyname[k], keylen[k], buf, n, &(struct pogocache_store_opts){ .time = T0 }); if (s != POGOCACHE_REPLACED && s != POGOCACHE_INSERTED) fail('T', "store in a batch: %d", s); }
static int pk[NKMAX], npk; static atomic_uint incs;
static void *pair_thread(void *arg) {
    struct thr *t = arg; trs = t->seed; 
    pthread_barrier_wait(&bar);
    for (int i = 0; i < ops_per_round; i++) {
        delay(); int x = rn(100);
        if (x < 40) { // increment all keys of the group in a batch, in shard order
            struct pogocache *b = pogocache_begin(cache); uint32_t v[NKMAX];
            for (int j = 0; j < npk; j++) { 
                v[j] = rd_in(b, pk[j]); delay();
                if (v[j] != v[0]) fail('T', "batch sees %u and %u in keys that are only changed together", v[0], v[j]);
                wr_in(b, pk[j], v[j]+1); delay();
            }
            for (int j = 0; j < npk; j++) if (rd_in(b, pk[j]) != v[0]+1) fail('T', "batch lost its own write");
            if (nshards == 1 && pct(20)) { uint32_t seen[NKMAX] = {0}; pogocache_iter(b, &(struct pogocache_iter_opts){ .time = T0, .entry = cb_iter, .udata = seen });
                for (int j = 0; j < npk; j++) if (seen[pk[j]] != v[0]+1) fail('T', "iteration inside a batch does not see its write"); 
                size_t n = pogocache_count(b, &(struct pogocache_count_opts){ .time = T0 }); if (n < (size_t)npk) fail('T', "count inside a batch"); }
            pogocache_end(b); atomic_fetch_add(&incs, 1);
        } else if (x < 55) { // batched reader
            struct pogocache *b = pogocache_begin(cache); uint32_t v0 = rd_in(b, pk[0]);
            for (int j = 1; j < npk; j++) { delay(); uint32_t v = rd_in(b, pk[j]); 
                // other keys may be advanced only if their shard was not touched yet
                if (v < v0) fail('T', "batched reads went backwards: %u then %u", v0, v); 
                if (keyshard[pk[j]] == keyshard[pk[0]] && v != v0) fail('T', "another thread changed a key of a shard held by the batch (%u, %u)", v0, v); }
            uint32_t again = rd_in(b, pk[0]);
            if (again != v0) fail('T', "value changed while its shard was held by the batch (%u, %u)", v0, again);
            pogocache_end(b); atomic_fetch_add_explicit(&st_pairs_ok,1,memory_order_relaxed);
        } else { // plain reader: once one key shows n every key shows at least n
            int a = rn(npk), c = rn(npk); uint32_t va = rd_in(cache, pk[a]); delay(); uint32_t vc = rd_in(cache, pk[c]);
            if (vc < va) fail('T', "plain reads saw a batch half applied: key %d at %u, then key %d at %u", pk[a], va, pk[c], vc);
            atomic_fetch_add_explicit(&st_pairs_ok,1,memory_order_relaxed);
            if (pct(10)) pogocache_sweep(cache, 0, 0, &(struct pogocache_sweep_opts){ .time = T0 });
            if (pct(5)) pogocache_count(cache, 0);
        }
    }
    release_some(true);
    return 0;
}
// counter mode: load+update and batch load+store increments are conserved
static atomic_uint inck[NKMAX];
static void *counter_thread(void *arg) {
    struct thr *t = arg; trs = t->seed; char nm[32];
    pthread_barrier_wait(&bar);
    for (int i = 0; i < ops_per_round; i++) {
        int k = rn(nkeys < 3 ? nkeys : 3); 
        struct ldctx lc = {0}; struct pogocache *b = pogocache_begin(cache);
        uint32_t v = rd_in(b, k); delay(); wr_in(b, k, v+1); pogocache_end(b); atomic_fetch_add(&inck[k], 1);
        (void)lc;
        if (pct(30)) { // unrelated churn that grows and shrinks the table
            int n = snprintf(nm, sizeof nm, "x%d", (int)rn(200)); char buf[512]; size_t vn = mkval(buf, 1+rn(1000));
            if (pct(60)) pogocache_store(cache, nm, n, buf, vn, &(struct pogocache_store_opts){ .time = T0, .expires = pct(50) ? T0-1 : 0 });
            else pogocache_delete(cache, nm, n, &(struct pogocache_delete_opts){ .time = T0 });
        }
        if (pct(3)) pogocache_sweep(cache, 0, 0, &(struct pogocache_sweep_opts){ .time = T0 });
    }
    return 0;
}
// storm: every entry point from every thread, for the race detector
static int cb_iter_any(int shard, int64_t time, const void *key, size_t kn, const void *v, size_t vn, int64_t exp, uint32_t fl, uint64_t cas, void *u) {
    (void)shard,(void)time,(void)exp,(void)fl,(void)cas; (void)u; volatile char c; 
    if (kn) c = ((const char*)key)[kn-1]; 
    if (vn) c = ((const char*)v)[vn-1]; 
    (void)c; return pct(3) ? POGOCACHE_ITER_DELETE : pct(1) ? POGOCACHE_ITER_STOP : POGOCACHE_ITER_CONTINUE;
}
static void *storm_thread(void *arg) {
    struct thr *t = arg; trs = t->seed; 
    pthread_barrier_wait(&bar);
    for (int i = 0; i < ops_per_round; i++) {
        int k = rn(nkeys); char buf[512]; size_t n; int64_t T = T0 + i; struct ldctx lc = {0};
        struct pogocache *c = cache; bool inb = pct(10);
        if (inb) c = pogocache_begin(cache);
        for (int j = inb ? 3 : 1; j > 0; j--) switch (rn(inb ? 4 : 13)) {
        case 0: n = mkval(buf, 1+rn(100000)); pogocache_store(c, keyname[k], keylen[k], buf, n, &(struct pogocache_store_opts){ .time = T, .ttl = pct(50) ? 1+rn(40) : 0, .lowmem = pct(10), .keepttl = pct(10), .nx = pct(10) }); break;
        case 1: lc.upd = pct(30); lc.newid = 1+rn(1000); pogocache_load(c, keyname[k], keylen[k], &(struct pogocache_load_opts){ .time = T, .entry = cb_load, .udata = &lc, .notouch = pct(50) }); break;
        case 2: pogocache_delete(c, keyname[k], keylen[k], &(struct pogocache_delete_opts){ .time = T }); break;
        case 3: pogocache_load(c, keyname[k], keylen[k], &(struct pogocache_load_opts){ .time = T }); break;
        case 4: pogocache_iter(c, &(struct pogocache_iter_opts){ .time = T, .entry = cb_iter_any, .oneshard = pct(50), .oneshardidx = rn(nshards) }); break;
        case 5: pogocache_sweep(c, 0, 0, &(struct pogocache_sweep_opts){ .time = T }); break;
        case 6: pogocache_sweep_poll(c, &(struct pogocache_sweep_poll_opts){ .time = T }); break;
        case 7: pogocache_count(c, 0); pogocache_total(c, 0); pogocache_size(c, &(struct pogocache_size_opts){ .entriesonly = pct(50) }); break;
        case 8: if (pct(10)) pogocache_clear(c, &(struct pogocache_clear_opts){ .time = T, .deferfree = pct(50), .oneshard = pct(50), .oneshardidx = rn(nshards) }); break;
        case 9: { uint64_t cur = 0; for (int z = 0; z < 30; z++) { struct pogocache_entry *e = pogocache_entry_iter(c, T, &cur); if (!e) break; 
            size_t kn, vn; char kb[128]; pogocache_entry_key(c, e, &kn, kb); const char *v = pogocache_entry_value(c, e, &vn); volatile char x = vn ? v[vn-1] : 0; (void)x; pogocache_entry_release(c, e); } break; }
        default: n = mkval(buf, 1+rn(100000)); pogocache_store(c, keyname[k], keylen[k], buf, n, &(struct pogocache_store_opts){ .time = T }); break;
        }
        if (inb) pogocache_end(c);
        if (pct(10)) release_some(false);
    }
    release_some(true);
    return 0;
}

static void sh_cb(int shard, int64_t time, const void *key, size_t kn, const void *v, size_t vn, int64_t exp, uint32_t fl, uint64_t cas, struct pogocache_update **up, void *u) {
    (void)time,(void)key,(void)kn,(void)v,(void)vn,(void)exp,(void)fl,(void)cas,(void)up; *(int*)u = shard; }

static void *(*body)(void*);
static void make_cache(uint64_t s) {
    trs = s; 
    usecas = !strcmp(mode,"cas") ? true : pct(50); thbatch = pct(50); use_notify = !strcmp(mode,"notify") || pct(30);
    static const int sh[] = {1,1,2,3,8}; nshards = sh[rn(5)];
    if (!strcmp(mode,"storm")) use_notify = false;
    static const int dl[] = {0,3,10,25}; delay_pct = dl[rn(4)];
    nkeys = !strcmp(mode,"storm") ? 40 : !strcmp(mode,"pair") ? 4 : 2 + rn(4);
    for (int i = 0; i < nkeys; i++) keylen[i] = snprintf(keyname[i], 32, pct(50) ? "k%d" : "Key-%d-longer", i);
    struct pogocache_opts po = { .malloc = h_malloc, .free = h_free, .yield = cb_yield, .usecas = usecas, .usethreadbatch = thbatch,
        .nshards = nshards, .allowshrink = pct(60), .nosixpack = pct(40), .seed = rnd(), .evicted = cb_evicted };
    if (!strcmp(mode,"storm") || !strcmp(mode,"counter")) po.evicted = 0;
    // learn the shard of every key from a scratch cache with the same seed
    struct pogocache *c2 = pogocache_new(&(struct pogocache_opts){ .nshards = nshards, .seed = po.seed });
    for (int i = 0; i < nkeys; i++) { pogocache_store(c2, keyname[i], keylen[i], "x", 1, 0); keyshard[i] = -1;
        pogocache_load(c2, keyname[i], keylen[i], &(struct pogocache_load_opts){ .entry = sh_cb, .udata = &keyshard[i] }); }
    pogocache_free(c2);
    if (!strcmp(mode,"counter")) use_notify = false; // the churn keys are not in the table
    if (use_notify) po.notify = cb_notify;
    cache = pogocache_new(&po);
    memset(shadow, 0, sizeof shadow); memset(shadow_id, 0, sizeof shadow_id);
    memset(casobs, 0, sizeof casobs); memset(init_state, 0, sizeof init_state);
    atomic_store(&next_id, 1); atomic_store(&incs, 0);
    for (int i = 0; i < 3; i++) atomic_store(&inck[i], 0);
    atomic_store(&have_clear, pct(30));
}
static void quiesce_checks(void) {
    if (!strcmp(mode,"storm")) return;
    uint32_t seen[NKMAX] = {0}; size_t live = 0;
    if (!strcmp(mode,"counter")) return;
    pogocache_sweep(cache, 0, 0, &(struct pogocache_sweep_opts){ .time = T0 });
    pogocache_iter(cache, &(struct pogocache_iter_opts){ .time = T0, .entry = cb_iter, .udata = seen });
    for (int k = 0; k < nkeys; k++) if (seen[k]) { live++; st_visits++; }
    size_t cnt = pogocache_count(cache, &(struct pogocache_count_opts){ .time = T0 });
    if (cnt != live) fail('A', "count %zu after quiescing, iteration finds %zu", cnt, live);
    for (int k = 0; k < nkeys; k++) {
        uint32_t v = rd_in(cache, k);
        if (v != seen[k]) fail('I', "key %d iterated as v%u but reads v%u", k, seen[k], v);
        if (use_notify && shadow_id[k] != v) fail('N', "notifications leave key %d at v%u but it reads v%u", k, shadow_id[k], v);
    }
    if (live == 0) { size_t sz = pogocache_size(cache, &(struct pogocache_size_opts){ .time = T0, .entriesonly = true }); if (sz != 0) fail('A', "empty cache reports %zu bytes of entries", sz); }
}

int main(int argc, char **argv) {
    uint64_t seed = 1; int rounds = 100, caches = 10; ops_per_round = 10;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i],"--mode")) snprintf(mode, sizeof mode, "%s", argv[++i]);
        else if (!strcmp(argv[i],"--seed")) seed = strtoull(argv[++i],0,10);
        else if (!strcmp(argv[i],"--rounds")) rounds = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--caches")) caches = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--ops")) ops_per_round = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--threads")) nthreads = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--enforce")) snprintf(enforce, sizeof enforce, "%s", argv[++i]);
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
    }
    body = !strcmp(mode,"pair") ? pair_thread : !strcmp(mode,"counter") ? counter_thread : !strcmp(mode,"storm") ? storm_thread : lin_thread;
    for (int ci = 0; ci < caches; ci++) {
        uint64_t cs = seed*1000003 + ci; cs *= 0x9E3779B97F4A7C15ull; cs ^= cs >> 29;
        make_cache(cs); uint64_t basemem = 0; (void)basemem;
        if (body == pair_thread) {
            npk = nkeys; for (int i = 0; i < npk; i++) pk[i] = i;
            for (int i = 0; i < npk; i++) for (int j = i+1; j < npk; j++) if (keyshard[pk[j]] < keyshard[pk[i]]) { int x = pk[i]; pk[i] = pk[j]; pk[j] = x; }
        }
        if (body == pair_thread) for (int i = 0; i < nkeys; i++) wr_in(cache, i, 1);
        if (body == counter_thread) for (int i = 0; i < 3 && i < nkeys; i++) wr_in(cache, i, 1);
        for (int r = 0; r < rounds; r++) {
            cur_round_seed = cs + r;
            pthread_barrier_init(&bar, 0, nthreads);
            for (int t = 0; t < nthreads; t++) { thr[t].i = t; thr[t].seed = cs + r*31 + t*1009 + 7; thr[t].n = 0; if (r == 0) thr[t].ncas = 0; else if (thr[t].ncas > 32) thr[t].ncas = 0; pthread_create(&thr[t].t, 0, body, &thr[t]); }
            for (int t = 0; t < nthreads; t++) pthread_join(thr[t].t, 0);
            pthread_barrier_destroy(&bar);
            st_rounds++; st_ops += (uint64_t)ops_per_round*nthreads;
            if (body == lin_thread) judge_round();
            if (body == pair_thread) { uint32_t want = 1 + atomic_load(&incs); for (int i = 0; i < npk; i++) if (rd_in(cache, pk[i]) != want) fail('R', "after %u batched increments key %d holds %u", want-1, pk[i], rd_in(cache, pk[i])-1); }
            if (body == counter_thread) for (int k = 0; k < 3 && k < nkeys; k++) { uint32_t want = 1 + atomic_load(&inck[k]); if (rd_in(cache,k) != want) fail('R', "after %u increments key %d holds %u", want-1, k, rd_in(cache,k)-1); }
            quiesce_checks();
        }
        release_some(true);
        pogocache_free(cache);
        long long lb = atomic_load(&live_blocks);
        if (lb != 0) fail('M', "%lld allocations left after the cache was freed", lb);
        atomic_store(&live_blocks, 0);
    }
    printf("STATS rounds=%" PRIu64 " ops=%" PRIu64 " overlapping_pairs=%" PRIu64 " key_histories=%" PRIu64 " search_states=%" PRIu64 " undecided=%" PRIu64 " interleavings=%" PRIu64
        " notifications=%llu yields=%llu delays=%llu retained=%llu isolated_reads=%llu changed=%llu cas_won=%llu cas_lost=%llu\n", st_rounds, st_ops, st_overlap, st_keys_checked, st_search, st_incon, st_inter,
        (unsigned long long)st_notes, (unsigned long long)st_yields, (unsigned long long)st_delays, (unsigned long long)st_retains, (unsigned long long)st_pairs_ok, (unsigned long long)st_changed,
        (unsigned long long)st_cas_won, (unsigned long long)st_cas_lost);
    return 0;
}
