// Sequential engine harness: runs the real cache engine against a dictionary
// model with explicit (virtual) time and judges every call with oracles.
//
//   eng_seq --mode M --seed S --hist N --ops K --enforce LETTERS [--fault]
//
// Oracle categories (letters):
//  V status/value  X expiry  E eviction  B bytes  I iteration  N notify/evicted
//  M allocation balance / retained entries  A accounting  C cas  O out-of-memory
//  D self-deadlock in a batch
// A failure of a category that is not enforced abandons the history (counted).
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <inttypes.h>
#include <stdarg.h>
#include <setjmp.h>
#include <assert.h>
#include "pogocache.h"

static char enforce[64] = "VXEBINMACOD";
static jmp_buf abandon;
static bool base_ok;   // this history ran to its end without faults
static bool injected;  // a fault was injected in this run of it
static uint64_t hist_seed;
static int curop;
static char opdesc[512];
static bool batch_open;
static int cond_pct = 20;    // share of conditional stores
static bool crafted;         // the key set has crafted hash collisions
static bool faultmode;      // inject allocation failures
static char modes[32] = "seq";

// ---- statistics --------------------------------------------------------
static uint64_t st_ops, st_hist, st_abandoned, st_cmp, st_events, st_evict_lowmem,
    st_evict_exp, st_evict_clear, st_iters, st_itervisits, st_maxcount, 
    st_faults, st_nomem, st_retained, st_batches, st_boundary, st_put_back,
    st_expired_seen, st_opkinds[32], st_lowins, st_low_pairs, st_low_pairs_live;
static uint64_t statehash_bloom[1<<12]; // distinct (config,count,lastop) states
static uint64_t st_states;

// ---- rng ---------------------------------------------------------------
static uint64_t rs;
static uint64_t rnd(void) {
    uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t rn(uint64_t n) { return n ? rnd() % n : 0; }
static bool pct(int p) { return (int)rn(100) < p; }
static void note_state(uint64_t h) {
    h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; 
    uint32_t i = (h >> 3) & ((1<<18)-1);
    if (!(statehash_bloom[i>>6] & (1ull<<(i&63)))) {
        statehash_bloom[i>>6] |= 1ull<<(i&63); st_states++;
    }
}

// ---- failure -----------------------------------------------------------
static void fail(char cat, const char *fmt, ...) {
    va_list ap;
    bool enf = strchr(enforce, cat) != 0 || (batch_open && strchr(enforce, 'T')) ||
        (injected && base_ok && strchr(enforce, 'O'));
    if (!enf) {
        if (getenv("ENG_VERBOSE")) {
            printf("NOTE abandoned cat=%c hist=%" PRIu64 " op=%d [%s] ", cat, hist_seed, curop, opdesc);
            va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n");
        }
        longjmp(abandon, 1);
    }
    printf("FAIL cat=%c mode=%s hist=%" PRIu64 " op=%d [%s] batch=%d: ", cat, modes, 
        hist_seed, curop, opdesc, batch_open);
    va_start(ap, fmt); vprintf(fmt, ap); va_end(ap);
    printf("\n");
    fflush(stdout);
    _Exit(1);
}
static void harness_error(const char *msg) {
    printf("HARNESS %s hist=%" PRIu64 " op=%d\n", msg, hist_seed, curop);
    fflush(stdout); _Exit(2);
}

// ---- counting / failing allocator ---------------------------------------
// Records live blocks in a hash set. Blocks of abandoned histories leak: the
// table is wiped at the start of each history.
#define ABITS 17
struct ablk { void *p; size_t n; };
static struct ablk *atab; 
static size_t acount, abytes;
static uint64_t aalloc;       // allocations attempted in this history
static uint64_t afail_at, afail_sticky_until; // fault window [at, until)
static bool afail_on;
static size_t aslot(void *p) { return ((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> (64-ABITS); }
static struct ablk *afind(void *p) {
    size_t i = aslot(p);
    while (atab[i].p) { if (atab[i].p == p) return &atab[i]; i = (i+1)&((1<<ABITS)-1); }
    return 0;
}
static bool inject_now;  // a failure was injected during current op
static void *h_malloc(size_t n) {
    uint64_t idx = aalloc++;
    if (afail_on && idx >= afail_at && idx < afail_sticky_until) {
        st_faults++; inject_now = injected = true;
        return 0;
    }
    void *p = malloc(n ? n : 1);
    if (!p) harness_error("real malloc failed");
    memset(p, 0xA5, n); // expose reliance on zeroed memory
    if (acount > (1u<<ABITS)*3/4) harness_error("alloc table full");
    size_t i = aslot(p);
    while (atab[i].p) i = (i+1)&((1<<ABITS)-1);
    atab[i].p = p; atab[i].n = n; acount++; abytes += n;
    return p;
}
static void h_free(void *p) {
    if (!p) return;
    struct ablk *b = afind(p);
    if (!b) { fail('M', "free of a pointer that is not a live allocation of the cache"); return; }
    acount--; abytes -= b->n;
    // backshift delete
    size_t i = b-atab, m = (1<<ABITS)-1;
    atab[i].p = 0;
    size_t j = i;
    while (1) {
        j = (j+1)&m;
        if (!atab[j].p) break;
        size_t k = aslot(atab[j].p);
        if ((i<=j) ? (i<k && k<=j) : (i<k || k<=j)) continue;
        atab[i] = atab[j]; atab[j].p = 0; i = j;
    }
    free(p);
}

// ---- crafted hashes (only a source of hostile keys; nothing depends on it) --
static uint64_t inv64(uint64_t a) { uint64_t x = a; for (int i=0;i<6;i++) x *= 2-a*x; return x; }
static uint64_t unshift31(uint64_t h) { uint64_t x = h; for (int i=0;i<3;i++) x = h ^ (x>>31); return x; }
// 8-byte key whose th64(key,8,seed) == want
static uint64_t key_for_hash(uint64_t want, uint64_t seed) {
    const uint64_t r = 0x14020a57acced8b7ull, ir = inv64(r);
    uint64_t h = want;
    h *= ir; h = unshift31(h);
    h *= ir; h = unshift31(h);
    h *= ir; h = unshift31(h);
    h = (h - 8) * ir;
    // h = rotl31? of (seed*r ^ x) : code does h=h<<31|h>>33
    h = (h >> 31) | (h << 33);
    uint64_t x = h ^ (seed * r);
    // x = (k*r) rotated left by 31
    x = (x >> 31) | (x << 33);
    return x * ir;
}

// ---- model ---------------------------------------------------------------
struct val { uint8_t *p; size_t n; };
struct mk {
    uint8_t *key; size_t klen;
    bool res;            // an entry was stored and not known to be removed
    struct val v;
    uint32_t flags; int64_t exp;
    uint64_t cas; bool casknown;
    uint64_t *cass; int ncass, capcass;
    int64_t atime; bool atime_ok;
    int shard;           // learned from events, -1 unknown
    // shadow built only from notifications
    void *sh_ent; 
    bool seen;           // scratch for iteration
    int nseen;
};
#define MAXK 40000
static struct mk *keys; static int nkeys;
static int *kidx; static int kidxcap; // key lookup hash -> index
static uint64_t fnv(const void *p, size_t n) {
    uint64_t h = 1469598103934665603ull; const uint8_t *b = p;
    for (size_t i=0;i<n;i++) { h ^= b[i]; h *= 1099511628211ull; } 
    return h ^ (h>>31);
}
static int key_find(const void *k, size_t n) {
    size_t i = fnv(k,n) & (kidxcap-1);
    while (kidx[i] >= 0) {
        struct mk *m = &keys[kidx[i]];
        if (m->klen == n && (n == 0 || memcmp(m->key,k,n)==0)) return kidx[i];
        i = (i+1)&(kidxcap-1);
    }
    return -1;
}
static bool key_add(const void *k, size_t n) {
    if (nkeys >= MAXK || key_find(k,n) >= 0) return false;
    struct mk *m = &keys[nkeys];
    memset(m, 0, sizeof(*m));
    m->key = malloc(n?n:1); memcpy(m->key, k, n); m->klen = n; m->shard = -1;
    size_t i = fnv(k,n) & (kidxcap-1);
    while (kidx[i] >= 0) i = (i+1)&(kidxcap-1);
    kidx[i] = nkeys++;
    return true;
}
static bool alive(struct mk *m, int64_t now) { return m->res && (m->exp == 0 || m->exp > now); }
static void model_setval(struct mk *m, const void *p, size_t n) {
    free(m->v.p); m->v.p = malloc(n?n:1); if (n) memcpy(m->v.p,p,n); m->v.n = n;
}

// ---- configuration of a history ------------------------------------------
static struct pogocache *cache, *cur; // cur: handle for ops (cache or batch)
static bool cf_notify, cf_evicted, cf_usecas, cf_nosix, cf_noevict, cf_shrink, cf_thbatch;
static int cf_nshards, cf_load; static uint64_t cf_seed;
static int64_t now_;      // virtual time
static uint64_t last_total;
static int lowmem_pct, batch_pct, bigval_pct, ttl_pct, shortttl_pct;

// ---- events ---------------------------------------------------------------
enum { EV_INS=1, EV_REP, EV_DEL, EV_EVICT };
struct ev { int kind; int k; int reason; int shard; };
static struct ev evs[MAXK*4]; static int nevs;
static bool in_op;
// retained entries
struct held { struct pogocache_entry *e; int k; uint8_t *v; size_t vn; };
static struct held helds[256]; static int nheld;

static size_t shadow_count, shadow_bytes; // entries resident by notifications
static size_t ent_size(void *e) { struct ablk *b = afind(e); return b ? b->n : 0; }
static bool bytes_exact;

static bool eq(const void *a, size_t an, const void *b, size_t bn) {
    return an == bn && (an == 0 || memcmp(a,b,an)==0);
}
static void retain(struct pogocache_entry *e, int k, const void *v, size_t vn) {
    if (nheld >= 200) return;
    pogocache_entry_retain(cache, e);
    struct held *h = &helds[nheld++];
    h->e = e; h->k = k; h->v = malloc(vn?vn:1); if (vn) memcpy(h->v, v, vn); h->vn = vn;
    st_retained++;
}
static void release_one(int i) {
    struct held h = helds[i];
    char buf[128]; size_t kn, vn;
    const void *kp = pogocache_entry_key(cache, h.e, &kn, buf);
    struct mk *m = &keys[h.k];
    st_cmp++;
    if (!eq(kp, kn, m->key, m->klen)) fail('M', "retained entry's key changed");
    const void *vp = pogocache_entry_value(cache, h.e, &vn);
    if (!eq(vp, vn, h.v, h.vn)) fail('M', "retained entry's value changed (len %zu was %zu)", vn, h.vn);
    pogocache_entry_release(cache, h.e);
    free(h.v);
    helds[i] = helds[--nheld];
}

static void cb_notify(int shard, int64_t time, struct pogocache_entry *ne,
    struct pogocache_entry *oe, void *udata)
{
    st_events++;
    if (udata != (void*)&nkeys) fail('N', "udata not passed to notify");
    if (!in_op) fail('N', "notification outside of any call");
    if (time != now_) fail('N', "notify time %" PRId64 " != now %" PRId64, time, now_);
    if (shard < 0 || shard >= cf_nshards) fail('N', "notify shard %d out of range", shard);
    struct pogocache_entry *any = ne ? ne : oe;
    if (!any) { fail('N', "notify without entries"); return; }
    char buf[128]; size_t kn, vn;
    const void *kp = pogocache_entry_key(cache, any, &kn, buf);
    int k = key_find(kp, kn);
    if (k < 0) { fail('N', "notify for a key never used (len %zu)", kn); return; }
    if (ne && oe) {
        char buf2[128]; size_t kn2;
        const void *kp2 = pogocache_entry_key(cache, oe, &kn2, buf2);
        if (!eq(kp,kn,kp2,kn2)) fail('N', "replace with two different keys");
    }
    struct mk *m = &keys[k];
    if (m->shard >= 0 && m->shard != shard) fail('N', "key moved from shard %d to %d", m->shard, shard);
    m->shard = shard;
    struct ev e = { .k = k, .shard = shard };
    if (ne && oe) {
        e.kind = EV_REP;
        if (m->sh_ent != oe) fail('N', "replaced notification for an entry that is not the resident one");
        shadow_bytes -= ent_size(oe); shadow_bytes += ent_size(ne);
        m->sh_ent = ne;
    } else if (ne) {
        e.kind = EV_INS;
        // an expired old entry may be reported as expired right before
        if (m->sh_ent) fail('N', "inserted notification but the key is already resident by notifications");
        m->sh_ent = ne; shadow_count++; shadow_bytes += ent_size(ne);
    } else {
        e.kind = EV_DEL;
        if (m->sh_ent != oe) fail('N', "removal notification for an entry that is not the resident one");
        m->sh_ent = 0; shadow_count--; shadow_bytes -= ent_size(oe);
    }
    if (ne) {
        if (!afind(ne)) bytes_exact = false;
        if (pct(2)) { const void *vp = pogocache_entry_value(cache, ne, &vn); retain(ne, k, vp, vn); }
    } 
    if (oe && pct(4)) { const void *vp = pogocache_entry_value(cache, oe, &vn); retain(oe, k, vp, vn); }
    if (oe) { // content of the outgoing entry must be what the model holds
        const void *vp = pogocache_entry_value(cache, oe, &vn);
        st_cmp++;
        if (m->res && !eq(vp, vn, m->v.p, m->v.n)) fail('N', "old entry's value is not the stored one");
    }
    if (nevs < MAXK*4) evs[nevs++] = e;
}
static void cb_evicted(int shard, int reason, int64_t time, const void *key,
    size_t keylen, const void *value, size_t valuelen, int64_t expires,
    uint32_t flags, uint64_t cas, void *udata)
{
    st_events++;
    if (udata != (void*)&nkeys) fail('N', "udata not passed to evicted");
    if (!in_op) fail('N', "evicted outside of any call");
    if (time != now_) fail('N', "evicted time wrong");
    int k = key_find(key, keylen);
    if (k < 0) { fail('N', "evicted for a key never used"); return; }
    struct mk *m = &keys[k];
    if (m->shard >= 0 && m->shard != shard) fail('N', "evicted: key moved shard");
    m->shard = shard;
    if (!m->res) fail('N', "evicted reported for an entry not present (reason %d)", reason);
    st_cmp++;
    if (!eq(value, valuelen, m->v.p, m->v.n)) fail('N', "evicted value differs from stored one");
    if (expires != m->exp) fail('N', "evicted expires %" PRId64 " stored %" PRId64, expires, m->exp);
    if (flags != m->flags) fail('N', "evicted flags %u stored %u", flags, m->flags);
    if (m->casknown && cas != m->cas) fail('N', "evicted cas differs");
    if (cf_notify) {
        if (m->sh_ent) fail('N', "evicted without (or before) removal notification");
    }
    struct ev e = { .k = k, .kind = EV_EVICT, .reason = reason, .shard = shard };
    if (nevs < MAXK*4) evs[nevs++] = e;
}
static bool hangseen;
static void cb_yield(void *udata) {
    (void)udata;
    // Single-threaded: contention can only be with ourselves.
    if (!hangseen) { hangseen = true; fail('D', "operation waits for a lock held by its own batch (self-deadlock)"); }
}

// ---- op results -------------------------------------------------------------
static int g_calls; static struct mk *g_m;
static int64_t g_exp; static uint32_t g_flags; static uint64_t g_cas; static bool g_cancel;
static bool g_update; static struct pogocache_update g_upd;
static void check_content(struct mk *m, const void *key, size_t keylen, const void *v, size_t vn, int64_t expires,
    uint32_t flags, uint64_t cas, const char *what)
{
    st_cmp++;
    if (!eq(key, keylen, m->key, m->klen)) fail('B', "%s: wrong key passed (len %zu vs %zu)", what, keylen, m->klen);
    if (!eq(v, vn, m->v.p, m->v.n)) fail('B', "%s: value differs (len %zu, stored %zu) keylen=%zu", what, vn, m->v.n, m->klen);
    if (flags != m->flags) fail('V', "%s: flags %u stored %u", what, flags, m->flags);
    if (expires != m->exp) fail('X', "%s: expires %" PRId64 " stored %" PRId64, what, expires, m->exp);
    if (cf_usecas) {
        if (m->casknown) {
            if (cas != m->cas) fail('C', "%s: cas changed from %" PRIu64 " to %" PRIu64 " without modification", what, m->cas, cas);
        } else {
            for (int i = 0; i < m->ncass; i++) if (m->cass[i] == cas)
                fail('C', "%s: cas value %" PRIu64 " was used before for this key", what, cas);
            m->cas = cas; m->casknown = true;
            if (m->ncass == m->capcass) { m->capcass = m->capcass?m->capcass*2:8; m->cass = realloc(m->cass, m->capcass*8); }
            m->cass[m->ncass++] = cas;
        }
    } else if (cas != 0) fail('C', "%s: cas %" PRIu64 " reported with cas disabled", what, cas);
}
static void load_cb(int shard, int64_t time, const void *key, size_t keylen,
    const void *value, size_t valuelen, int64_t expires, uint32_t flags,
    uint64_t cas, struct pogocache_update **update, void *udata)
{
    g_calls++;
    if (udata != (void*)g_m) fail('V', "load udata");
    if (time != now_) fail('X', "load time");
    if (shard < 0 || shard >= cf_nshards) fail('V', "load shard");
    if (!alive(g_m, now_)) {
        fail(g_m->res ? 'X' : 'V', "load returned an entry that is %s", g_m->res ? "expired" : "absent");
    }
    check_content(g_m, key, keylen, value, valuelen, expires, flags, cas, "load");
    g_exp = expires; g_flags = flags; g_cas = cas;
    if (g_update) *update = &g_upd;
}
static bool entry_cb(int shard, int64_t time, const void *key, size_t keylen,
    const void *value, size_t valuelen, int64_t expires, uint32_t flags,
    uint64_t cas, void *udata)
{
    g_calls++;
    (void)shard;
    if (udata != (void*)g_m) fail('V', "entry udata");
    if (time != now_) fail('X', "entry time");
    if (!alive(g_m, now_)) fail(g_m->res ? 'X' : 'V', "entry callback for an entry that is %s", g_m->res?"expired":"absent");
    check_content(g_m, key, keylen, value, valuelen, expires, flags, cas, "entry cb");
    return !g_cancel;
}

// ---- event verification after each op ------------------------------------
// target: key index whose change is the op's own effect, with ekind; -1 none.
// Every other removal must be an expired entry, or one low-memory eviction.
static void after_op(int target, int ekind, bool lowmem_insert, bool clear, bool ok_delete_many,
    bool *evicted_one)
{
    int own = 0, lowevs = 0, nremov = 0, nevict = 0, nown_del = 0;
    for (int i = 0; i < nevs; i++) {
        struct ev *e = &evs[i];
        struct mk *m = &keys[e->k];
        if (e->kind == EV_EVICT) {
            nevict++;
            bool dead = m->res && m->exp != 0 && m->exp <= now_;
            if (e->reason == POGOCACHE_REASON_EXPIRED) {
                st_evict_exp++;
                if (!dead) fail('X', "live entry evicted as expired");
            } else if (e->reason == POGOCACHE_REASON_LOWMEM) {
                st_evict_lowmem++; lowevs++;
                if (dead) fail('E', "expired entry reported as lowmem eviction");
                if (!lowmem_insert) fail('E', "low-memory eviction by an operation that must not evict");
                if (e->k == target) fail('E', "the entry just stored was evicted");
            } else if (e->reason == POGOCACHE_REASON_CLEARED) {
                st_evict_clear++;
                if (!clear) fail('N', "cleared reason outside clear");
                if (dead) fail('N', "expired entry reported as cleared");
            } else fail('N', "unknown reason %d", e->reason);
            if (e->k != target || ekind != EV_INS) m->res = false;
            else { /* expired old version of the key being inserted */ }
            if (e->k != target && lowmem_insert && evicted_one) *evicted_one = true;
        } else if (e->kind == EV_DEL) {
            nremov++;
            bool dead = m->res && m->exp != 0 && m->exp <= now_;
            if (e->k == target && ekind == EV_DEL) { own++; nown_del++; }
            else if (e->k == target && ekind == EV_INS) { if (!dead) fail('N', "live old entry of stored key removed instead of replaced"); }
            else if (ok_delete_many && m->seen) { nown_del++; }
            else if (!cf_evicted) {
                if (dead) {}
                else if (clear) {}
                else if (lowmem_insert) { lowevs++; }
                else fail('N', "live entry removed by an unrelated operation");
                m->res = false;
                if (lowmem_insert && evicted_one) *evicted_one = true;
            }
        } else {
            if (e->k != target) fail('N', "change notification for an untouched key");
            if (e->kind != ekind) fail('N', "notification kind %d, expected %d", e->kind, ekind);
            own++;
        }
    }
    if (cf_notify) {
        int want = target >= 0 && ekind ? 1 : 0;
        if (own != want) fail('N', "%d own notifications, expected %d", own, want);
        if (cf_evicted && nevict != nremov-nown_del) fail('N', "%d removals but %d evicted events", nremov-nown_del, nevict);
    }
    if (lowevs > 1) fail('E', "%d entries evicted by one store", lowevs);
    nevs = 0;
}

static void begin_op(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(opdesc, sizeof(opdesc), fmt, ap); va_end(ap);
    nevs = 0; in_op = true; g_calls = 0; inject_now = false; hangseen = false;
    st_ops++;
}
static void end_op(void) { in_op = false; }

static size_t model_alive(void) { size_t c = 0; for (int i=0;i<nkeys;i++) c += alive(&keys[i], now_); return c; }
static size_t model_res(void) { size_t c = 0; for (int i=0;i<nkeys;i++) c += keys[i].res; return c; }

// ---- accounting ------------------------------------------------------------
static void check_accounting(int ins, int rep, bool deep) {
    // total
    begin_op("total");
    struct pogocache_total_opts to = { .time = now_ };
    uint64_t total = pogocache_total(cur, &to);
    end_op();
    if (total < last_total) fail('A', "total went down from %" PRIu64 " to %" PRIu64, last_total, total);
    uint64_t d = total-last_total;
    if (ins == 2) { /* replaced an expired resident: 0 or 1 */ if (d > 1) fail('A', "total +%" PRIu64, d); }
    else if (ins) { if (d != 1) fail('A', "total +%" PRIu64 " after an insertion", d); }
    else if (rep) { if (d > 1) fail('A', "total +%" PRIu64 " after a replacement", d); }
    else if (d != 0) fail('A', "total +%" PRIu64 " though nothing was stored", d);
    last_total = total;
    // count
    begin_op("count");
    struct pogocache_count_opts co = { .time = now_ };
    size_t count = pogocache_count(cur, &co);
    end_op();
    if (count > st_maxcount) st_maxcount = count;
    if (cf_notify) {
        if (count != shadow_count) fail('A', "count %zu but notifications say %zu", count, shadow_count);
    }
    if (deep) {
        size_t lo = model_alive(), hi = model_res();
        if (count < lo || count > hi) fail('A', "count %zu outside [%zu,%zu]", count, lo, hi);
        size_t sum = 0; uint64_t tsum = 0; size_t ssum = 0, fsum = 0;
        for (int i = 0; i < cf_nshards; i++) {
            begin_op("count shard");
            struct pogocache_count_opts c1 = { .oneshard = true, .oneshardidx = i };
            sum += pogocache_count(cur, &c1);
            struct pogocache_total_opts t1 = { .oneshard = true, .oneshardidx = i };
            tsum += pogocache_total(cur, &t1);
            struct pogocache_size_opts s1 = { .oneshard = true, .oneshardidx = i, .entriesonly = true };
            ssum += pogocache_size(cur, &s1);
            struct pogocache_size_opts f1 = { .oneshard = true, .oneshardidx = i };
            fsum += pogocache_size(cur, &f1);
            end_op();
        }
        if (sum != count) fail('A', "sum of shard counts %zu != count %zu", sum, count);
        if (tsum != total) fail('A', "sum of shard totals != total");
        struct pogocache_size_opts so = { .entriesonly = true };
        begin_op("size");
        size_t sz = pogocache_size(cur, &so);
        size_t full = pogocache_size(cur, 0);
        end_op();
        if (sz != ssum || full != fsum) fail('A', "sum of shard sizes != size");
        if (full < sz) fail('A', "full size %zu below entries size %zu", full, sz);
        if (full > sz + ((size_t)1<<33)) fail('A', "size underflow %zu", full);
        for (int bad = -1; bad <= cf_nshards; bad += cf_nshards+1) {
            struct pogocache_count_opts c1 = { .oneshard = true, .oneshardidx = bad };
            if (pogocache_count(cur, &c1) != 0) fail('A', "count of nonexistent shard");
        }
    }
    if (cf_notify && bytes_exact) {
        struct pogocache_size_opts so = { .entriesonly = true };
        begin_op("size");
        size_t sz = pogocache_size(cur, &so);
        end_op();
        st_cmp++;
        if (sz != shadow_bytes) fail('A', "reported bytes %zu but resident entries occupy %zu (count %zu)", sz, shadow_bytes, count);
    } else if (count == 0) {
        struct pogocache_size_opts so = { .entriesonly = true };
        size_t sz = pogocache_size(cur, &so);
        if (sz != 0) fail('A', "empty cache reports %zu bytes", sz);
    }
}

// ---- operations --------------------------------------------------------------
static size_t rnd_vlen(void) {
    int r = rn(1000);
    if (r < bigval_pct) { static const size_t bigs[] = {65400,65535,65536,65500,70000,100000,1<<20}; 
        return bigs[rn(7)] + rn(64) - 32; }
    if (r < 30) return 0;
    if (r < 500) return rn(40);
    if (r < 850) return 150 + rn(130); // around the 255-byte entry boundary
    return rn(1500);
}
static uint8_t vbuf[(1<<20)+4096];
static size_t mk_value(void) {
    size_t n = rnd_vlen();
    uint64_t x = rnd();
    for (size_t i = 0; i < n; i += 8) { x = x*6364136223846793005ull+1442695040888963407ull; uint64_t y = x>>13; memcpy(vbuf+i,&y,8); }
    return n;
}
static int64_t rnd_ttl(void) {
    switch (rn(6)) {
    case 0: return 1;
    case 1: return 1 + rn(5);
    case 2: return 1 + rn(200);
    case 3: return 1 + rn(100000);
    case 4: return INT64_MAX - rn(3);
    default: return 1 + rn(shortttl_pct ? 50 : 5000);
    }
}
static int pick_key(void) {
    // skew: half of the operations hit a small hot set
    if (pct(40)) return rn(nkeys < 12 ? nkeys : 12);
    return rn(nkeys);
}
static void advance_time(void) {
    int r = rn(20);
    if (r < 10) return;
    if (r < 15) now_ += rn(4);
    else if (r < 19) now_ += rn(60);
    else now_ += rn(3000);
}
// move time to the very edge of some key's expiration
static void time_to_edge(void) {
    for (int t = 0; t < 8; t++) {
        struct mk *m = &keys[rn(nkeys)];
        if (m->res && m->exp > now_+1 && m->exp < now_+100000) {
            now_ = m->exp - 1 + rn(3); st_boundary++; return;
        }
    }
}

static int entries_in_shard_other(int shard, int target, uint64_t *unk) {
    int c = 0;
    for (int i=0;i<nkeys;i++) if (i != target && keys[i].res) {
        if (keys[i].shard < 0) (*unk)++;
        else if (keys[i].shard == shard) c++;
    }
    return c;
}

static void op_store(int k) {
    struct mk *m = &keys[k];
    g_m = m;
    struct pogocache_store_opts o = { .time = now_, .udata = m };
    size_t vn = mk_value();
    if (pct(ttl_pct)) {
        if (pct(50)) o.ttl = rnd_ttl();
        else { int64_t e = now_ + (int64_t)rn(60) - 5; if (e < 1) e = 1; o.expires = e; if (pct(5)) o.expires = INT64_MAX; if (pct(10)) o.ttl = rnd_ttl(); }
    }
    if (pct(3)) { o.expires = -(int64_t)rn(100); }
    if (pct(40)) o.flags = pct(50) ? (uint32_t)rnd() : (uint32_t)rn(3);
    int cp = cond_pct;
    if (pct(cp)) o.keepttl = true;
    if (pct(cp)) o.nx = true;
    if (pct(cp)) o.xx = true;
    if (pct(cp+cp/4)) {
        o.casop = true;
        int r = rn(10);
        if (r < 6 && m->casknown) o.cas = m->cas;
        else if (r < 8 && m->ncass > 1) o.cas = m->cass[rn(m->ncass-1)];
        else o.cas = rn(5);
        if (r >= 8 && m->casknown && pct(50)) o.cas = m->cas + (pct(50) ? 1 : -1);
    }
    if (pct(lowmem_pct)) o.lowmem = true;
    g_cancel = false;
    bool withcb = pct(40);
    if (withcb) { o.entry = entry_cb; g_cancel = pct(40); }
    if (pct(5) && m->res && vn) { // store same value again
        vn = m->v.n < sizeof vbuf ? m->v.n : vn; memcpy(vbuf, m->v.p, vn);
    }
    bool wasres = m->res, wasalive = alive(m, now_);
    // expectation
    int64_t exp = o.expires > 0 ? o.expires : o.ttl > 0 ? ((o.ttl > INT64_MAX-now_) ? INT64_MAX : now_+o.ttl) : 0;
    if (o.keepttl && wasalive) exp = m->exp;
    int want;
    bool cbexpect = false;
    if (o.lowmem && cf_noevict) want = POGOCACHE_NOMEM;
    else if (wasalive) {
        if (o.casop) {
            if (cf_usecas && !m->casknown) { o.casop = false; }
        }
        if (o.casop) want = cf_usecas && m->cas == o.cas ? POGOCACHE_REPLACED : POGOCACHE_FOUND;
        else if (o.nx) want = POGOCACHE_FOUND;
        else want = POGOCACHE_REPLACED;
        if (want == POGOCACHE_REPLACED && withcb) { cbexpect = true; if (g_cancel) want = POGOCACHE_CANCELED; }
    } else want = o.xx || o.casop ? POGOCACHE_NOTFOUND : POGOCACHE_INSERTED;
    st_opkinds[want]++;
    begin_op("store k=%d klen=%zu vlen=%zu exp=%" PRId64 " ttl=%" PRId64 " now=%" PRId64 " flags=%u%s%s%s%s%s%s", k, m->klen, vn,
        o.expires, o.ttl, now_, o.flags, o.nx?" nx":"", o.xx?" xx":"", o.casop?" cas":"", o.keepttl?" keepttl":"",
        o.lowmem?" lowmem":"", withcb?(g_cancel?" cb-cancel":" cb"):"");
    // exact-size copies so that over-reads of caller memory are caught
    uint8_t *kc = malloc(m->klen?m->klen:1), *vc = malloc(vn?vn:1);
    memcpy(kc, m->key, m->klen); memcpy(vc, vbuf, vn);
    int others_before = 0; uint64_t unk = 0;
    if (o.lowmem) others_before = m->shard >= 0 ? entries_in_shard_other(m->shard, k, &unk) : -1;
    size_t cnt_before = pogocache_count(cur, 0);
    int got = pogocache_store(cur, kc, m->klen, vc, vn, &o);
    end_op();
    free(kc); free(vc);
    bool ev1 = false;
    if (got == POGOCACHE_NOMEM && inject_now) {
        st_nomem++;
        if (cbexpect && g_calls == 0) {}
        after_op(-1, 0, false, false, false, 0);
        check_accounting(0, 0, false);
        return;
    }
    if (got != want) fail(wasres && !wasalive ? 'X' : (o.lowmem ? 'E' : (o.casop ? 'C' : 'V')), "status %d, expected %d (resident=%d alive=%d)", got, want, wasres, wasalive);
    if ((g_calls != 0) != cbexpect || g_calls > 1) fail('V', "entry callback called %d times, expected %d", g_calls, cbexpect);
    if (want == POGOCACHE_FOUND || want == POGOCACHE_CANCELED) st_put_back++;
    if (want == POGOCACHE_INSERTED || want == POGOCACHE_REPLACED) {
        bool lowins = o.lowmem && want == POGOCACHE_INSERTED;
        after_op(k, want == POGOCACHE_INSERTED ? EV_INS : EV_REP, lowins, false, false, &ev1);
        model_setval(m, vbuf, vn);
        m->res = true; m->exp = exp; m->flags = o.flags; m->casknown = false; m->atime = now_;
        if (want == POGOCACHE_INSERTED && wasres) st_expired_seen++;
        if (lowins) {
            size_t cnt = pogocache_count(cur, 0);
            bool know = cf_notify || cf_evicted;
            if (!wasres) {
                if (cf_nshards == 1) {
                    if (cnt_before >= 2 && cnt > cnt_before) {
                        // the property bounds growth, so a nearly empty shard may gain an entry;
                        // crafted colliding key sets are exempt
                        if (!crafted) fail('E', "low-memory insertion grew the cache from %zu to %zu", cnt_before, cnt);
                    }
                    if (cnt + 1 < cnt_before) fail('E', "low-memory insertion shrank the cache from %zu to %zu", cnt_before, cnt);
                } else if (know && cf_notify && unk == 0 && others_before > 1 && !ev1 && !crafted)
                    fail('E', "shard has %d other entries but low-memory insertion evicted none", others_before);
            }
            // the new key must be readable
            if (m->exp == 0 || m->exp > now_) {
                struct pogocache_load_opts lo = { .time = now_, .notouch = true };
                in_op = true;
                if (pogocache_load(cur, m->key, m->klen, &lo) != POGOCACHE_FOUND) fail('E', "key stored under low memory is not readable");
                in_op = false; nevs = 0;
            }
        }
        check_accounting(want == POGOCACHE_INSERTED ? (wasres ? 2 : 1) : 0, want == POGOCACHE_REPLACED, false);
    } else {
        after_op(-1, 0, false, false, false, 0);
        check_accounting(0, 0, false);
    }
}
static void op_load(int k) {
    struct mk *m = &keys[k]; g_m = m;
    g_update = pct(25);
    size_t vn = 0;
    static uint8_t ub[sizeof vbuf];
    struct pogocache_load_opts o = { .time = now_, .udata = m, .notouch = pct(30) };
    bool withcb = pct(90) || g_update;
    if (withcb) o.entry = load_cb;
    if (g_update) {
        vn = mk_value(); memcpy(ub, vbuf, vn);
        g_upd = (struct pogocache_update){ .value = ub, .valuelen = vn, .flags = pct(50)?(uint32_t)rnd():0,
            .expires = pct(40) ? now_ + (int64_t)rn(50) : (pct(10) ? -5 : 0) };
        if (pct(30) && m->res) { g_upd.value = m->v.p; g_upd.valuelen = vn = m->v.n; }
    }
    bool wasres = m->res, wasalive = alive(m, now_);
    begin_op("load k=%d klen=%zu now=%" PRId64 "%s", k, m->klen, now_, g_update?" update":"");
    uint8_t *kc = malloc(m->klen?m->klen:1); memcpy(kc, m->key, m->klen);
    int got = pogocache_load(cur, kc, m->klen, &o);
    end_op();
    free(kc);
    int want = wasalive ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND;
    st_opkinds[want+10]++;
    if (got == POGOCACHE_NOMEM && inject_now) {
        st_nomem++; after_op(-1,0,false,false,false,0); check_accounting(0,0,false); return;
    }
    if (got != want) fail(wasres && !wasalive ? 'X':'V', "status %d expected %d (resident=%d)", got, want, wasres);
    if (withcb && g_calls != (wasalive?1:0)) fail('V', "load callback called %d times", g_calls);
    if (wasalive && g_update) {
        after_op(k, EV_REP, false, false, false, 0);
        uint8_t *tmp = malloc(vn?vn:1); memcpy(tmp, g_upd.value, vn);
        model_setval(m, tmp, vn); free(tmp);
        m->flags = g_upd.flags; m->exp = g_upd.expires > 0 ? g_upd.expires : 0; m->casknown = false;
        check_accounting(0, 1, false);
    } else { after_op(-1, 0, false, false, false, 0); check_accounting(0,0,false); }
    if (wasres && !wasalive) st_expired_seen++;
}
static void op_delete(int k) {
    struct mk *m = &keys[k]; g_m = m;
    struct pogocache_delete_opts o = { .time = now_, .udata = m };
    g_cancel = false;
    bool withcb = pct(50);
    if (withcb) { o.entry = entry_cb; g_cancel = pct(50); }
    bool wasres = m->res, wasalive = alive(m, now_);
    begin_op("delete k=%d klen=%zu%s", k, m->klen, withcb?(g_cancel?" cancel":" cb"):"");
    uint8_t *kc = malloc(m->klen?m->klen:1); memcpy(kc, m->key, m->klen);
    int got = pogocache_delete(cur, kc, m->klen, &o);
    end_op();
    free(kc);
    int want = !wasalive ? POGOCACHE_NOTFOUND : withcb && g_cancel ? POGOCACHE_CANCELED : POGOCACHE_DELETED;
    st_opkinds[want+15]++;
    if (got != want) fail(wasres && !wasalive ? 'X':'V', "status %d expected %d (resident=%d)", got, want, wasres);
    if (g_calls != (wasalive && withcb ? 1 : 0)) fail('V', "delete callback called %d times", g_calls);
    if (want == POGOCACHE_DELETED) {
        after_op(k, EV_DEL, false, false, false, 0);
        m->res = false;
    } else {
        after_op(-1, 0, false, false, false, 0);
        if (want == POGOCACHE_NOTFOUND) m->res = false;
        else st_put_back++;
    }
    check_accounting(0,0,false);
}
// iteration
static int it_delpct, it_stopafter, it_visits, it_stopdel;
static int it_cb(int shard, int64_t time, const void *key, size_t keylen,
    const void *value, size_t valuelen, int64_t expires, uint32_t flags,
    uint64_t cas, void *udata)
{
    st_itervisits++;
    it_visits++;
    if (udata != (void*)&it_visits) fail('I', "iter udata");
    if (time != now_) fail('I', "iter time");
    int k = key_find(key, keylen);
    if (k < 0) { fail('I', "iteration returned a key never stored (len %zu)", keylen); return 0; }
    struct mk *m = &keys[k];
    if (!m->res) fail('I', "iteration returned an absent key");
    if (!alive(m, now_)) fail(strchr(enforce,'I')?'I':'X', "iteration returned an expired key");
    check_content(m, key, keylen, value, valuelen, expires, flags, cas, "iter");
    if (m->shard >= 0 && m->shard != shard) fail('I', "iter shard %d, key is in %d", shard, m->shard);
    m->nseen++;
    if (m->nseen > 1) fail('I', "key visited %d times", m->nseen);
    if (it_stopafter >= 0 && it_visits > it_stopafter) {
        if (it_stopdel) { m->seen = true; return POGOCACHE_ITER_STOP|POGOCACHE_ITER_DELETE; }
        return POGOCACHE_ITER_STOP;
    }
    if (pct(it_delpct)) { m->seen = true; return POGOCACHE_ITER_DELETE; }
    return POGOCACHE_ITER_CONTINUE;
}
static void op_iter(bool destructive) {
    for (int i=0;i<nkeys;i++) { keys[i].seen = false; keys[i].nseen = 0; }
    struct pogocache_iter_opts o = { .time = now_, .entry = it_cb, .udata = &it_visits };
    it_delpct = destructive ? (pct(50) ? 10 : pct(50) ? 50 : 90) : 0;
    it_stopafter = destructive && pct(30) ? (int)rn(20) : -1;
    it_stopdel = pct(50);
    it_visits = 0;
    if (pct(15)) { o.oneshard = true; o.oneshardidx = (int)rn(cf_nshards+2)-1; }
    begin_op("iter del=%d stop=%d oneshard=%d/%d", it_delpct, it_stopafter, o.oneshard, o.oneshardidx);
    int got = pogocache_iter(cur, &o);
    end_op();
    st_iters++;
    bool stopped = it_stopafter >= 0 && it_visits > it_stopafter;
    if (got != (stopped ? POGOCACHE_CANCELED : POGOCACHE_FINISHED)) fail('I', "iter status %d stopped=%d", got, stopped);
    after_op(-1, 0, false, false, true, 0);
    size_t ndel = 0;
    for (int i=0;i<nkeys;i++) if (keys[i].seen) { keys[i].res = false; ndel++; if (cf_notify && keys[i].sh_ent) fail('N', "deleted during iteration without notification"); }
    if (!stopped) {
        for (int i=0;i<nkeys;i++) {
            struct mk *m = &keys[i];
            bool should = (alive(m, now_) || m->seen);
            if (o.oneshard) {
                if (m->shard < 0 || m->shard != o.oneshardidx) continue;
            }
            if (should && m->nseen != 1) fail('I', "live key %d (klen %zu) visited %d times", i, m->klen, m->nseen);
        }
    }
    // deleted keys must be gone
    for (int i=0;i<nkeys && ndel;i++) if (keys[i].seen) {
        in_op = true;
        struct pogocache_load_opts lo = { .time = now_, .notouch = true };
        if (pogocache_load(cur, keys[i].key, keys[i].klen, &lo) != POGOCACHE_NOTFOUND) fail('I', "key deleted by the visitor still present");
        in_op = false;
    }
    nevs = 0;
    check_accounting(0,0,pct(30));
}
static void op_scan(void) {
    for (int i=0;i<nkeys;i++) { keys[i].seen = false; keys[i].nseen = 0; }
    uint64_t cursor = 0;
    begin_op("entry_iter now=%" PRId64, now_);
    int steps = 0;
    int limit = nkeys*2+10;
    while (1) {
        struct pogocache_entry *e = pogocache_entry_iter(cur, now_, &cursor);
        if (!e) { if (cursor != 0) fail('I', "end of scan with non-zero cursor"); break; }
        char buf[128]; size_t kn, vn;
        const void *kp = pogocache_entry_key(cache, e, &kn, buf);
        int k = key_find(kp, kn);
        if (k < 0) { fail('I', "scan returned unknown key"); return; }
        struct mk *m = &keys[k];
        const void *vp = pogocache_entry_value(cache, e, &vn);
        if (!alive(m, now_)) fail('I', "scan returned %s key", m->res?"expired":"absent");
        st_cmp++;
        if (!eq(vp,vn,m->v.p,m->v.n)) fail('B', "scan value differs");
        m->nseen++;
        if (m->nseen > 1) fail('I', "scan returned a key twice");
        st_itervisits++;
        if (pct(3) && nheld < 200) { retain(e, k, vp, vn); }
        pogocache_entry_release(cache, e);
        if (++steps > limit) fail('I', "scan does not terminate");
    }
    end_op();
    st_iters++;
    after_op(-1,0,false,false,false,0);
    for (int i=0;i<nkeys;i++) if (alive(&keys[i], now_) && keys[i].nseen != 1) fail('I', "scan missed live key %d (klen %zu)", i, keys[i].klen);
    check_accounting(0,0,false);
    // hostile cursors
    for (int t = 0; t < 6; t++) {
        uint64_t c;
        switch (rn(7)) {
        case 0: c = ((uint64_t)cf_nshards)<<32; break;
        case 1: c = ((uint64_t)(cf_nshards-1)<<32)|0xFFFFFFFFull; break;
        case 2: c = ((uint64_t)rn(cf_nshards)<<32)|rn(1u<<31); break;
        case 3: c = rnd(); break;
        case 4: c = UINT64_MAX - rn(3); break;
        case 5: c = ((uint64_t)rn(cf_nshards)<<32)|0x7FFFFFFF; break;
        default: c = ((uint64_t)(cf_nshards+rn(3))<<32)|rn(100); break;
        }
        begin_op("entry_iter cursor=%" PRIx64, c);
        struct pogocache_entry *e = pogocache_entry_iter(cur, now_, &c);
        if (e) {
            char buf[128]; size_t kn; const void *kp = pogocache_entry_key(cache, e, &kn, buf);
            int k = key_find(kp, kn);
            if (k < 0 || !alive(&keys[k], now_)) fail('I', "hostile cursor returned a dead or unknown entry");
            pogocache_entry_release(cache, e);
        }
        end_op();
        after_op(-1,0,false,false,false,0);
    }
}
static void op_sweep(void) {
    struct pogocache_sweep_opts o = { .time = now_ };
    size_t swept = 77777, kept = 77777;
    size_t before = pogocache_count(cur, 0);
    size_t al = model_alive();
    if (pct(20)) { o.oneshard = true; o.oneshardidx = (int)rn(cf_nshards+2)-1; }
    begin_op("sweep oneshard=%d", o.oneshard);
    size_t want_s = 0;
    struct pogocache_count_opts c1 = { .oneshard = true, .oneshardidx = o.oneshardidx };
    size_t b1 = o.oneshard ? pogocache_count(cur, &c1) : before;
    pogocache_sweep(cur, &swept, &kept, &o);
    end_op();
    int ndel = 0;
    for (int i=0;i<nevs;i++) ndel += evs[i].kind == EV_DEL;
    bool known = cf_notify;
    after_op(-1,0,false,false,false,0);
    (void)want_s;
    if (!o.oneshard) {
        for (int i=0;i<nkeys;i++) if (!alive(&keys[i], now_)) keys[i].res = false;
        if (kept != al) fail('I', "sweep kept %zu, live entries %zu", kept, al);
        if (swept != before-al) fail('I', "sweep swept %zu, expired entries %zu", swept, before-al);
        if (cf_notify) for (int i=0;i<nkeys;i++) if (keys[i].sh_ent && !keys[i].res) fail('X', "expired entry survived a sweep");
        if (pogocache_count(cur,0) != al) fail('A', "count after sweep");
    } else {
        if (swept+kept != b1) fail('I', "one-shard sweep swept %zu kept %zu of %zu", swept, kept, b1);
        if (known && (size_t)ndel != swept) fail('I', "one-shard sweep swept %zu but removed %d", swept, ndel);
    }
    check_accounting(0,0,pct(30));
    // poll
    begin_op("sweep_poll");
    struct pogocache_sweep_poll_opts po = { .time = now_ };
    if (pct(50)) po.pollsize = 1+rn(100);
    double p = pogocache_sweep_poll(cur, &po);
    end_op();
    if (!(p >= 0 && p <= 1)) fail('I', "sweep_poll returned %f", p);
    if (!o.oneshard && p != 0) fail('I', "sweep_poll returned %f right after a full sweep", p);
    after_op(-1,0,false,false,false,0);
}
static void op_clear(void) {
    struct pogocache_clear_opts o = { .time = now_, .deferfree = pct(50) };
    if (pct(30)) { o.oneshard = true; o.oneshardidx = (int)rn(cf_nshards+2)-1; }
    struct pogocache_count_opts c1 = { .oneshard = true, .oneshardidx = o.oneshardidx };
    size_t before = pogocache_count(cur, 0), b1 = o.oneshard ? pogocache_count(cur, &c1) : before;
    begin_op("clear oneshard=%d/%d deferfree=%d", o.oneshard, o.oneshardidx, o.deferfree);
    pogocache_clear(cur, &o);
    end_op();
    size_t n1 = 0, n2 = 0;
    for (int i=0;i<nevs;i++) { n1 += evs[i].kind == EV_DEL; n2 += evs[i].kind == EV_EVICT; }
    after_op(-1,0,false,true,false,0);
    size_t after = pogocache_count(cur, 0);
    if (after != before-b1) fail('V', "clear left %zu entries, expected %zu", after, before-b1);
    if (cf_notify && n1 != b1) fail('N', "clear of %zu entries made %zu notifications", b1, n1);
    if (cf_evicted && n2 != b1) fail('N', "clear of %zu entries made %zu evicted events", b1, n2);
    if (!o.oneshard) { for (int i=0;i<nkeys;i++) keys[i].res = false; }
    else if (!cf_notify && !cf_evicted && b1) {
        // which keys went is unknown without events: ask
        for (int i=0;i<nkeys;i++) if (keys[i].res) {
            struct pogocache_load_opts lo = { .time = now_, .notouch = true };
            in_op = true; if (pogocache_load(cur, keys[i].key, keys[i].klen, &lo) == POGOCACHE_NOTFOUND) keys[i].res = false; in_op = false;
        }
        nevs = 0;
    }
    check_accounting(0,0,true);
}
static void full_check(void) {
    for (int i=0;i<nkeys;i++) {
        struct mk *m = &keys[i]; g_m = m; g_update = false;
        if (nkeys > 3000 && pct(80)) continue;
        struct pogocache_load_opts o = { .time = now_, .udata = m, .notouch = true, .entry = load_cb };
        begin_op("verify k=%d klen=%zu", i, m->klen);
        int got = pogocache_load(cur, m->key, m->klen, &o);
        end_op();
        int want = alive(m, now_) ? POGOCACHE_FOUND : POGOCACHE_NOTFOUND;
        if (got != want) fail(m->res && want == POGOCACHE_NOTFOUND ? 'X' : (faultmode ? 'O' : 'V'), "verify: status %d expected %d", got, want);
        after_op(-1,0,false,false,false,0);
        if (want == POGOCACHE_NOTFOUND) m->res = false;
    }
}
static void batch_toggle(void) {
    if (!batch_open) {
        begin_op("begin");
        struct pogocache *b = pogocache_begin(cache);
        end_op();
        if (!b) { if (!inject_now) fail('V', "begin returned null"); return; }
        cur = b; batch_open = true; st_batches++;
    } else {
        begin_op("end");
        pogocache_end(cur);
        end_op();
        cur = cache; batch_open = false;
    }
}

// ---- key universes -----------------------------------------------------------
static const char sixset[] = "-.0123456789:ABCDEFGHIJKLMNOPRSTUVWXY_abcdefghijklmnopqrstuvwxy";
static void gen_keys(int n) {
    crafted = false;
    uint8_t kb[70100];
    if (strcmp(modes,"bytes") == 0) {
        // every length at the interesting boundaries, several alphabets
        static const int lens[] = {0,1,2,3,4,5,7,8,9,15,16,17,31,32,33,62,63,64,65,95,96,97,126,127,128,129,130,131,170,171,172,200,
            254,255,256,257,300,1000,16382,16383,16384,16385,65000,65534,65535,65536,70000};
        int off = rn(2);
        for (size_t li = 0; li < sizeof lens/sizeof *lens; li++) for (int a = 0; a < 6; a++) {
            int L = lens[li];
            if (L > 2000 && ((li + a) % 3) != 0) continue;
            for (int i=0;i<L;i++) kb[i] = a==0 ? sixset[rn(64-1)] : a==1 ? sixset[0] : a==2 ? (uint8_t)rnd() : a==3 ? sixset[i%63] : a==4 ? 0 : 0xFF;
            if (a == 3 && L > 0) kb[off ? L-1 : rn(L)] = "QZz \x80"[rn(5)];
            key_add(kb, L);
        }
        for (int L = 0; L <= 300; L++) { for (int i=0;i<L;i++) kb[i] = sixset[rn(63)]; key_add(kb, L); }
        for (int c = 0; c < 256; c++) { kb[0]=c; key_add(kb,1); kb[0]='a'; kb[1]=c; key_add(kb,2); kb[0]='a';kb[1]='b';kb[2]='c';kb[3]=c; key_add(kb,4); }
        return;
    }
    int style = rn(5);
    bool collide = strcmp(modes,"collide") == 0 || style == 4;
    crafted = collide;
    for (int i = 0; nkeys < n && i < n*4; i++) {
        int st = collide && i < 900 && pct(90) ? 9 : style == 3 ? (int)rn(3) : style;
        size_t L;
        switch (st) {
        case 0: L = snprintf((char*)kb, 100, "key:%d", i); break;
        case 1: L = 1+rn(20); for (size_t j=0;j<L;j++) kb[j] = sixset[rn(63)]; break;
        case 2: L = rn(30); for (size_t j=0;j<L;j++) kb[j] = pct(30)? (uint8_t)rnd() : "abQ\0z"[rn(5)]; break;
        case 9: {
            // chosen hash: low bits close to the end of every table, or equal
            uint64_t low; int how = (strcmp(modes,"collide")==0) ? (int)(hist_seed%4) : 0;
            if (how == 0) low = 0xFFFFFF - rn(6);
            else if (how == 1) low = 0x123456;                 // all equal in the stored hash bits
            else if (how == 2) low = (0xFFF000 | rn(16)) | ((rn(16))<<4 & 0); 
            else low = (rnd() & 0xFFFFFF & ~0xFFFull) | 0xFFF; // equal low 12 bits
            uint64_t h = (rnd() & 0xFFFFFFFFFF000000ull) | low;
            uint64_t kk = key_for_hash(h, cf_seed); memcpy(kb, &kk, 8); L = 8; break; }
        default: L = snprintf((char*)kb, 100, "user/%d/%s", i, i%3?"profile":"x"); if (pct(20)) { size_t pad = rn(200); memset(kb+L,'a',pad); L += pad; } break;
        }
        key_add(kb, L);
    }
    if (pct(50)) key_add("", 0);
}

static void free_model(void) {
    for (int i=0;i<nkeys;i++) { free(keys[i].key); free(keys[i].v.p); free(keys[i].cass); }
    nkeys = 0;
}

static bool run_history(uint64_t seed, int ops, int64_t fail_at, int64_t fail_len, uint64_t *allocs_out) {
    hist_seed = seed; curop = -1; strcpy(opdesc, "init");
    rs = seed * 0x2545F4914F6CDD1Dull + 12345; rnd(); rnd();
    memset(atab, 0, sizeof(struct ablk)<<ABITS); acount = abytes = 0; aalloc = 0; afail_on = false;
    kidxcap = 1<<17; for (int i=0;i<kidxcap;i++) kidx[i] = -1;
    nheld = 0; nevs = 0; shadow_count = shadow_bytes = 0; bytes_exact = true; batch_open = false; last_total = 0;
    cache = cur = 0; in_op = false; injected = false;
    nkeys = 0;
    if (setjmp(abandon)) { st_abandoned++; free_model(); return false; }
    cf_notify = pct(70); cf_evicted = pct(60); cf_usecas = pct(50); cf_nosix = pct(40); cf_noevict = pct(30);
    cf_shrink = pct(60); cf_thbatch = pct(50);
    static const int shs[] = {1,1,1,2,3,4,7,16,64};
    cf_nshards = shs[rn(9)];
    static const int lds[] = {0,55,60,75,90,95,1,200};
    cf_load = lds[rn(8)];
    cf_seed = pct(50) ? 0 : rnd();
    now_ = 1 + (pct(50) ? rn(1000) : (int64_t)(rn(1ull<<55)));
    lowmem_pct = 0; batch_pct = 2; bigval_pct = 1; ttl_pct = 30; shortttl_pct = 0;
    int del_w = 15, iter_w = 2, load_w = 35, store_w = 45;
    int nk = 20 + rn(200);
    if (pct(20)) nk = 500 + rn(2500);
    if (pct(15)) nk = 1 + rn(6);
    if (!strcmp(modes,"evict")) { lowmem_pct = 60; if (!cf_notify && !cf_evicted) cf_evicted = true; if (pct(60)) { cf_nshards = 1; cf_notify = true; } cf_noevict = pct(20); store_w = 70; }
    else if (!strcmp(modes,"expiry")) { ttl_pct = 80; shortttl_pct = 1; lowmem_pct = pct(20) ? 10 : 0; if (lowmem_pct) cf_evicted = true; }
    else if (!strcmp(modes,"iter")) { iter_w = 12; ttl_pct = 50; shortttl_pct = 1; del_w = 10; if (pct(50)) cf_nshards = 1; if (pct(50)) nk = 20+rn(60); }
    else if (!strcmp(modes,"notify")) { cf_notify = pct(90); cf_evicted = pct(80); lowmem_pct = 10; if (!cf_notify && !cf_evicted) cf_evicted = true; iter_w = 6; }
    else if (!strcmp(modes,"account")) { cf_notify = true; iter_w = 6; ttl_pct = 50; lowmem_pct = 8; }
    else if (!strcmp(modes,"cas")) { cf_usecas = true; }
    else if (!strcmp(modes,"batch")) { batch_pct = 15; iter_w = 6; }
    else if (!strcmp(modes,"collide")) { cf_nshards = 1 + rn(2); nk = pct(70) ? 320 + rn(300) : 40+rn(100); store_w = 60; del_w = 20; bigval_pct = 0; cf_nosix = true; }
    else if (!strcmp(modes,"bytes")) { bigval_pct = 30; nk = 1000; ttl_pct = 10; }
    else if (!strcmp(modes,"shrink")) { nk = 150 + rn(pct(50) ? 600 : 2000); cf_nshards = pct(75) ? 1 : 2; cf_shrink = true; iter_w = 1; bigval_pct = 0; ttl_pct = pct(30) ? 40 : pct(50) ? 5 : 0; cond_pct = pct(50) ? 3 : 12; }
    else if (!strcmp(modes,"fault")) { cond_pct = 6; nk = 90 + rn(80); cf_nshards = 1; cf_shrink = pct(80); bigval_pct = 0; batch_pct = 1; store_w = 80; del_w = 10; ttl_pct = pct(50) ? 20 : 5; }
    else if (!strcmp(modes,"grow")) { nk = 8000 + rn(12000); store_w = 80; del_w = 5; iter_w = 0; bigval_pct = 0; cf_nshards = 1 + rn(3); }
    else { lowmem_pct = pct(20) ? 10 : 0; if (lowmem_pct && !cf_notify) cf_evicted = true; }
    gen_keys(nk);
    if (nkeys == 0) key_add("k", 1);
    struct pogocache_opts po = { .malloc = h_malloc, .free = h_free, .yield = cb_yield,
        .evicted = cf_evicted ? cb_evicted : 0, .notify = cf_notify ? cb_notify : 0, .udata = &nkeys,
        .usecas = cf_usecas, .nosixpack = cf_nosix, .noevict = cf_noevict, .allowshrink = cf_shrink,
        .usethreadbatch = cf_thbatch, .nshards = cf_nshards, .loadfactor = cf_load, .seed = cf_seed };
    uint64_t conf = cf_notify|cf_evicted<<1|cf_usecas<<2|cf_nosix<<3|cf_noevict<<4|cf_shrink<<5|cf_thbatch<<6|cf_nshards<<7|(uint64_t)cf_load<<20;
    if (fail_at >= 0) { afail_on = true; afail_at = fail_at; afail_sticky_until = fail_len < 0 ? UINT64_MAX : (uint64_t)(fail_at+fail_len); }
    begin_op("new nshards=%d load=%d shrink=%d", cf_nshards, cf_load, cf_shrink);
    cache = cur = pogocache_new(&po);
    end_op();
    if (!cache) {
        if (!inject_now) fail('V', "pogocache_new returned null without allocation failure");
        if (acount) fail('O', "failed creation leaked %zu blocks", acount);
        free_model(); if (allocs_out) *allocs_out = aalloc; st_hist++; return true;
    }
    if (pogocache_nshards(cache) != cf_nshards) fail('V', "nshards");
    bool phases = !strcmp(modes,"shrink") || !strcmp(modes,"fault") || (!strcmp(modes,"collide") && (hist_seed/4)%2);
    // growing and draining in turn, now and then down to nothing
    int phaselen = !strcmp(modes,"fault") ? ops/2+1 : pct(40) ? 300+rn(900) : nk*(1+rn(4));
    for (curop = 0; curop < ops; curop++) {
        advance_time();
        if (phases) { bool up = (curop/phaselen)%2 == 0; store_w = up ? 80 : 10; del_w = up ? 3 : !strcmp(modes,"fault") ? 80 : 200; }
        if (pct(ttl_pct/4)) time_to_edge();
        if (pct(batch_pct)) batch_toggle();
        int k = pick_key();
        int r = rn(store_w+load_w+del_w+iter_w+2);
        int kind;
        if ((r -= store_w) < 0) { kind = 1; op_store(k); }
        else if ((r -= load_w) < 0) { kind = 2; op_load(k); }
        else if ((r -= del_w) < 0) { kind = 3; op_delete(k); }
        else if ((r -= iter_w) < 0) {
            switch (rn(4)) { case 0: kind = 4; op_iter(true); break; case 1: kind = 5; op_iter(false); break; case 2: kind = 6; op_scan(); break; default: kind = 7; op_sweep(); break; }
        } else { kind = 8; if (!strcmp(modes,"fault") || !phases ? pct(phases ? 10 : 40) && strcmp(modes,"grow") : rn(60) == 0) op_clear(); else op_sweep(); }
        size_t cnt = pogocache_count(cur, 0);
        note_state(conf*1000003 + kind*31 + cnt*977);
        while (nheld > 100 || (nheld && pct(10))) release_one(rn(nheld));
        if (rn(150) == 0) full_check();
        if (rn(60) == 0) check_accounting(0,0,true);
    }
    curop = ops;
    if (batch_open) batch_toggle();
    afail_on = false;
    full_check();
    op_iter(false);
    check_accounting(0,0,true);
    if (pct(50)) op_clear();
    while (nheld) release_one(nheld-1);
    begin_op("free");
    if (pct(20)) pogocache_free(0);
    pogocache_free(cache);
    end_op();
    if (acount != 0) fail(faultmode ? 'O' : 'M', "%zu allocations (%zu bytes) not freed", acount, abytes);
    free_model();
    if (allocs_out) *allocs_out = aalloc;
    st_hist++;
    return true;
}

// ---- eviction experiments (mode evict) ------------------------------------
static int xe_reason, xe_n; static char xe_key[64];
static void xe_cb(int shard, int reason, int64_t time, const void *key, size_t keylen, const void *val,
    size_t vallen, int64_t expires, uint32_t flags, uint64_t cas, void *udata)
{
    (void)shard,(void)time,(void)val,(void)vallen,(void)expires,(void)flags,(void)cas,(void)udata;
    xe_n++; xe_reason = reason; snprintf(xe_key, sizeof xe_key, "%.*s", (int)keylen, (char*)key);
}
static void xe_load(int shard, int64_t time, const void *key, size_t keylen, const void *val, size_t vallen, int64_t expires, uint32_t flags,
    uint64_t cas, struct pogocache_update **update, void *udata)
{
    (void)shard,(void)time,(void)key,(void)keylen,(void)val,(void)vallen,(void)expires,(void)flags,(void)cas,(void)update,(void)udata;
}
static struct pogocache_update xe_upd;
static void xe_update(int shard, int64_t time, const void *key, size_t keylen, const void *val, size_t vallen, int64_t expires, uint32_t flags,
    uint64_t cas, struct pogocache_update **update, void *udata)
{
    (void)shard,(void)time,(void)key,(void)keylen,(void)cas,(void)udata;
    xe_upd = (struct pogocache_update){ .value = val, .valuelen = vallen, .flags = flags, .expires = pct(50) ? expires : 2000000 };
    *update = &xe_upd;
}
static void evict_experiments(uint64_t seed) {
    rs = seed; batch_open = false; hist_seed = seed; curop = -2;
    // an expired candidate goes before a live one: with one expired and one live
    // other entry nearly every low-memory insertion must take the expired one
    snprintf(opdesc, sizeof opdesc, "expired-before-live experiment");
    int trials = 300, live = 0, none = 0;
    for (int t = 0; t < trials; t++) {
        struct pogocache_opts po = { .nshards = 1, .evicted = xe_cb, .seed = rnd() };
        struct pogocache *c = pogocache_new(&po);
        struct pogocache_store_opts a = { .time = 1000 }, b = { .time = 1000+rn(3)*500, .expires = 2000 }, l = { .time = 5000+rn(100), .lowmem = true };
        bool first = pct(50);
        if (first) pogocache_store(c, "a", 1, "1", 1, &a);
        pogocache_store(c, "b", 1, "2", 1, &b);
        if (!first) pogocache_store(c, "a", 1, "1", 1, &a);
        xe_n = 0;
        if (pogocache_store(c, "c", 1, "3", 1, &l) != POGOCACHE_INSERTED) fail('E', "low-memory store refused");
        if (xe_n > 1) fail('E', "%d entries evicted", xe_n);
        if (xe_n == 0) none++;
        else if (xe_reason == POGOCACHE_REASON_LOWMEM) live++;
        st_low_pairs++;
        pogocache_free(c);
    }
    st_low_pairs_live += live;
    if (live + none > trials/4) fail('E', "of %d low-memory insertions next to one expired and one live entry %d evicted the live one and %d none", trials, live, none);
    // of two live entries the one that was used longer ago goes
    snprintf(opdesc, sizeof opdesc, "older-goes experiment");
    for (int way = 0; way < 7; way++) {
        int wrong = 0, took = 0;
        for (int t = 0; t < 100; t++) {
            struct pogocache_opts po = { .nshards = 1, .evicted = xe_cb, .seed = rnd(), .nosixpack = pct(50), .usecas = pct(50) };
            struct pogocache *c = pogocache_new(&po);
            int64_t tm = 1000+rn(1000);
            struct pogocache_store_opts a = { .time = tm, .expires = pct(30) ? 1000000 : 0 };
            bool first = pct(50);
            const char *o = first ? "a" : "b", *y = first ? "b" : "a";      // o is stored first
            pogocache_store(c, o, 1, "1", 1, &a); a.time += 1+rn(3)*100;
            pogocache_store(c, y, 1, "2", 1, &a);
            const char *victim = o;
            struct pogocache_load_opts lo = { .time = a.time+1+rn(3)*100 };
            switch (way) {
            case 0: break;
            case 1: pogocache_load(c, o, 1, &lo); victim = y; break;
            case 2: lo.entry = xe_load; pogocache_load(c, o, 1, &lo); victim = y; break;
            case 3: lo.notouch = true; if (pct(50)) lo.entry = xe_load; pogocache_load(c, o, 1, &lo); break;
            case 4: { struct pogocache_store_opts w = { .time = lo.time, .keepttl = pct(50) }; pogocache_store(c, o, 1, "3", 1, &w); victim = y; break; }
            case 6: lo.entry = xe_update; if (pogocache_load(c, o, 1, &lo) != POGOCACHE_FOUND) fail('E', "load with update failed"); victim = y; break;
            case 5: { struct pogocache *bt = pogocache_begin(c); pogocache_load(bt, o, 1, &lo); pogocache_end(bt); victim = y; break; }
            }
            struct pogocache_store_opts l = { .time = 5000, .lowmem = true };
            xe_n = 0;
            if (pogocache_store(c, "c", 1, "3", 1, &l) != POGOCACHE_INSERTED) fail('E', "low-memory store refused");
            if (xe_n == 1) { took++; if (strcmp(xe_key, victim)) wrong++; }
            st_low_pairs++;
            pogocache_free(c);
        }
        if (took > 50 && wrong*5 > took*2) fail('E', "%d of %d evictions took the entry that was used more recently than the other one (way %d)", wrong, took, way);
    }
    // growth stops
    snprintf(opdesc, sizeof opdesc, "growth experiment");
    for (int t = 0; t < 6; t++) {
        int ns = 1 + rn(8), base = rn(400), n = 3000;
        bool ne = t == 5;
        struct pogocache_opts po = { .nshards = ns, .evicted = xe_cb, .noevict = ne, .seed = rnd(), .allowshrink = pct(50), .loadfactor = 55+rn(40) };
        struct pogocache *c = pogocache_new(&po);
        char k[32];
        struct pogocache_store_opts o = { .time = 1000 };
        for (int i = 0; i < base; i++) pogocache_store(c, k, snprintf(k, sizeof k, "b%d", i), "x", 1, &o);
        size_t c0 = pogocache_count(c, 0);
        if (c0 != (size_t)base) fail('E', "count %zu", c0);
        o.lowmem = true; uint64_t ev = 0;
        for (int i = 0; i < n; i++) {
            o.time++; xe_n = 0;
            int kn = snprintf(k, sizeof k, "n%d", i);
            int r = pogocache_store(c, k, kn, "x", 1, &o);
            if (ne ? r != POGOCACHE_NOMEM : r != POGOCACHE_INSERTED) fail('E', "low-memory store status %d noevict=%d", r, ne);
            if (xe_n > 1) fail('E', "%d entries evicted by one store", xe_n);
            ev += xe_n;
            if (!ne && pogocache_load(c, k, kn, 0) != POGOCACHE_FOUND) fail('E', "entry just stored under low memory is not readable");
            st_lowins++;
        }
        size_t c1 = pogocache_count(c, 0);
        if (c1 > c0 + 3*(size_t)ns) fail('E', "cache grew from %zu to %zu entries under low memory (%d shards)", c0, c1, ns);
        if (c1 + ev != c0 + (ne ? 0 : n)) fail('E', "%zu entries + %" PRIu64 " evictions != %zu + %d stores", c1, ev, c0, n);
        pogocache_free(c);
    }
}

int main(int argc, char **argv) {
    uint64_t seed = 1; int hist = 10, ops = 500; bool fault = false; int maxfaults = 400; int64_t one_at = -1, one_len = 1; uint64_t one = 0; bool one_set = false;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i],"--mode")) snprintf(modes, sizeof modes, "%s", argv[++i]);
        else if (!strcmp(argv[i],"--seed")) seed = strtoull(argv[++i],0,10);
        else if (!strcmp(argv[i],"--hist")) hist = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--ops")) ops = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--enforce")) snprintf(enforce, sizeof enforce, "%s", argv[++i]);
        else if (!strcmp(argv[i],"--one")) { one = strtoull(argv[++i],0,10); one_set = true; hist = 1; }
        else if (!strcmp(argv[i],"--fault")) fault = true;
        else if (!strcmp(argv[i],"--maxfaults")) maxfaults = atoi(argv[++i]);
        else if (!strcmp(argv[i],"--at")) { one_at = atoll(argv[++i]); one_len = atoll(argv[++i]); }
        else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
    }
    atab = calloc(1u<<ABITS, sizeof(struct ablk));
    keys = calloc(MAXK, sizeof(struct mk));
    kidx = malloc(sizeof(int)<<17);
    uint64_t points = 0;
    if (!strcmp(modes,"evict") && strchr(enforce,'E')) evict_experiments(seed*7919+13);
    for (int h = 0; h < hist; h++) {
        uint64_t s = one_set ? one : (seed*0x9E3779B97F4A7C15ull ^ (uint64_t)(h+1)*0xD1B54A32D192ED03ull) >> 8;
        if (!fault) { run_history(s, ops, -1, 0, 0); continue; }
        faultmode = true;
        if (one_at >= 0) { base_ok = run_history(s, ops, -1, 0, 0); run_history(s, ops, one_at, one_len, 0); continue; }
        uint64_t n = 0;
        base_ok = run_history(s, ops, -1, 0, &n);
        uint64_t step = n > (uint64_t)maxfaults ? n/maxfaults + 1 : 1;
        for (uint64_t at = 0; at < n; at += (at < 40 ? 1 : step)) {
            // each allocation: fails once, fails for good, fails a few times in a row
            static const int lens[] = {1, -1, 2, 5};
            for (int li = 0; li < 3; li++) {
                int64_t len = lens[li == 2 ? 2 + at%2 : (uint64_t)li];
                printf("AT %" PRIu64 " %" PRIu64 " %" PRId64 "\n", s, at, len);
                points++;
                run_history(s, ops, at, len, 0);
            }
        }
    }
    printf("STATS hist=%" PRIu64 " ops=%" PRIu64 " abandoned=%" PRIu64 " comparisons=%" PRIu64 " events=%" PRIu64
        " lowmem_evictions=%" PRIu64 " expired_evictions=%" PRIu64 " cleared=%" PRIu64 " iterations=%" PRIu64 " visits=%" PRIu64
        " maxcount=%" PRIu64 " faults=%" PRIu64 " nomem=%" PRIu64 " retained=%" PRIu64 " batches=%" PRIu64 " edges=%" PRIu64
        " put_back=%" PRIu64 " expired_hits=%" PRIu64 " states=%" PRIu64 " fault_points=%" PRIu64 "\n",
        st_hist, st_ops, st_abandoned, st_cmp, st_events, st_evict_lowmem, st_evict_exp, st_evict_clear, st_iters, st_itervisits,
        st_maxcount, st_faults, st_nomem, st_retained, st_batches, st_boundary, st_put_back, st_expired_seen, st_states, points);
    return 0;
}
