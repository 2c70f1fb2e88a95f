/* The containers of the runtime and its tag and time arithmetic, driven by lines of text: one command per line,
   one JSON result per line.  Part of the check, not of the runtime. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "tag.h"
#include "util.h"
#include "vector.h"
#include "pqueue_base.h"
#include "pqueue_tag.h"
#include "hashset/hashset.h"
#include "hashset/hashset_itr.h"
#include "pointer_hashmap.h"
#include "mixed_radix.h"
#undef HASHMAP
#undef K
#undef V
#undef HASH_OF
#define HASHMAP(token) hm_int##_##token
#define K int
#define V int
#define HASH_OF(key) (size_t) key
#include "hashmap.h"

#define MAXEL 256
/* Elements of queues: tag and identity.  The key is what makes two of them equal beyond their priority. */
typedef struct { pqueue_tag_element_t base; int id, in; long pri, key; } el_t;   /* in: believed to be in this queue */
static el_t EL[MAXEL];
static pqueue_tag_t* TQ;
static pqueue_t* BQ[3];
static int b_cmp(pqueue_pri_t a, pqueue_pri_t b) { return a > b ? 1 : a < b ? -1 : 0; }
static pqueue_pri_t b_pri(void* e) { return (pqueue_pri_t)((el_t*)e)->pri; }
static size_t b_getpos(void* e) { return ((el_t*)e)->base.pos; }
static void b_setpos(void* e, size_t p) { ((el_t*)e)->base.pos = p; }
static int b_eq(void* a, void* b) { return ((el_t*)a)->key == ((el_t*)b)->key; }
static void b_prt(void* e) {}
static hashset_t HS;
static hashmap_object2int_t* HP;
static hm_int_t* HI;
static vector_t VEC;
static char objs[4096];

static void el(void* e) {     /* an element: identity (-1 if made by the queue itself) and tag */
  if (!e) { printf("[0,0,0]\n"); return; }
  pqueue_tag_element_t* t = e;
  int id = (char*)e >= (char*)EL && (char*)e < (char*)(EL + MAXEL) ? ((el_t*)e)->id : -1;
  printf("[%d,%lld,%u]\n", id, (long long)t->tag.time, t->tag.microstep);
}

int main(void) {
  static char line[1 << 14];
  long long a[10];
  setvbuf(stdout, NULL, getenv("UNITS_SLOW") ? _IONBF : _IOFBF, 1 << 16);
  while (fgets(line, sizeof line, stdin)) {
    char c[32];
    int n = 0;
    sscanf(line, "%31s%n", c, &n);
    memset(a, 0, sizeof a);
    sscanf(line + n, "%lld %lld %lld %lld %lld %lld", a, a + 1, a + 2, a + 3, a + 4, a + 5);
    /* An element is inserted only while it is in no queue, and removed only while it is in one. */
#define SKIP(x) if (x) { printf("null\n"); continue; }
#define IS(x) (strcmp(c, x) == 0)
    if (IS("new")) {     /* a new history; what came before is safe from a crash */
      memset(EL, 0, sizeof EL);
      printf("0\n");
      fflush(stdout);
    } else if (IS("flush")) {
      printf("0\n");
      fflush(stdout);
    } else if (IS("tq")) { TQ = pqueue_tag_init((size_t)a[0]); printf("0\n"); }
    else if (IS("tqfree")) { pqueue_tag_free(TQ); TQ = NULL; printf("0\n"); }
    else if (IS("tqins")) {
      el_t* e = &EL[a[0]];
      SKIP(e->in)
      memset(e, 0, sizeof *e);
      e->id = (int)a[0];
      e->in = 1;
      e->base.tag = (tag_t){a[1], (microstep_t)a[2]};
      printf("%d\n", pqueue_tag_insert(TQ, &e->base));
    } else if (IS("tqinstag")) printf("%d\n", pqueue_tag_insert_tag(TQ, (tag_t){a[0], (microstep_t)a[1]}));
    else if (IS("tqinsnm")) printf("%d\n", pqueue_tag_insert_if_no_match(TQ, (tag_t){a[0], (microstep_t)a[1]}));
    else if (IS("tqfind")) el(pqueue_tag_find_with_tag(TQ, (tag_t){a[0], (microstep_t)a[1]}));
    else if (IS("tqfindeq")) {
      el_t e = {.base = {.tag = {a[0], (microstep_t)a[1]}}};
      el(pqueue_tag_find_equal_same_tag(TQ, &e.base));
    } else if (IS("tqpeek")) el(pqueue_tag_peek(TQ));
    else if (IS("tqpeektag")) { tag_t t = pqueue_tag_peek_tag(TQ); printf("[0,%lld,%u]\n", (long long)t.time, t.microstep); }
    else if (IS("tqpop")) {
      void* e = pqueue_tag_pop(TQ);
      el(e);
      if (e && ((pqueue_tag_element_t*)e)->is_dynamic) free(e);
      else if (e) ((el_t*)e)->in = 0;
    } else if (IS("tqpoptag")) { tag_t t = pqueue_tag_pop_tag(TQ); printf("[0,%lld,%u]\n", (long long)t.time, t.microstep); }
    else if (IS("tqrm")) {
      SKIP(!EL[a[0]].in)
      pqueue_tag_remove(TQ, &EL[a[0]].base);
      EL[a[0]].in = 0;
      printf("0\n");
    }
    else if (IS("tqupto")) { 
      tag_t t = {a[0], (microstep_t)a[1]};
      pqueue_tag_remove_up_to(TQ, t);
      for (int k = 0; k < MAXEL; k++) {
        tag_t x = EL[k].base.tag;
        if (x.time < t.time || (x.time == t.time && x.microstep <= t.microstep)) EL[k].in = 0;
      }
      printf("0\n");
    }
    else if (IS("tqsize")) printf("%zu\n", pqueue_tag_size(TQ));
    else if (IS("bq")) {
      for (int k = 1; k < 3; k++) BQ[k] = pqueue_init((size_t)a[0], b_cmp, b_pri, b_getpos, b_setpos, b_eq, b_prt);
      printf("0\n");
    } else if (IS("bqfree")) { pqueue_free(BQ[1]); pqueue_free(BQ[2]); printf("0\n"); }
    else if (IS("bqins")) {
      el_t* e = &EL[a[1]];
      SKIP(e->in)
      memset(e, 0, sizeof *e);
      e->id = (int)a[1]; e->in = (int)a[0]; e->pri = a[2]; e->key = a[3];
      printf("%d\n", pqueue_insert(BQ[a[0]], e));
    } else if (IS("bqpop")) { el_t* e = pqueue_pop(BQ[a[0]]); if (e) e->in = 0; printf("%d\n", e ? e->id : 0); }
    else if (IS("bqpeek")) { el_t* e = pqueue_peek(BQ[a[0]]); printf("%d\n", e ? e->id : 0); }
    else if (IS("bqrm")) {
      SKIP(EL[a[1]].in != a[0])
      EL[a[1]].in = 0;
      printf("%d\n", pqueue_remove(BQ[a[0]], &EL[a[1]]));
    }
    else if (IS("bqsame") || IS("bqeq")) {
      el_t x = {.pri = a[1], .key = a[2]};
      el_t* e = IS("bqsame") ? pqueue_find_same_priority(BQ[a[0]], &x) : pqueue_find_equal_same_priority(BQ[a[0]], &x);
      printf("%d\n", e ? e->id : 0);
    } else if (IS("bqinto")) { 
      pqueue_empty_into(&BQ[a[0]], &BQ[3 - a[0]]);
      for (int k = 0; k < MAXEL; k++) if (EL[k].in) EL[k].in = (int)a[0];
      printf("0\n");
    }
    else if (IS("bqsize")) printf("%zu\n", pqueue_size(BQ[a[0]]));
    else if (IS("bqvalid")) printf("%d\n", pqueue_is_valid(BQ[a[0]]));
    else if (IS("hs")) { HS = hashset_create((unsigned short)a[0]); printf("0\n"); }
    else if (IS("hsfree")) { hashset_destroy(HS); printf("0\n"); }
    else if (IS("hsadd")) printf("%d\n", hashset_add(HS, (void*)a[0]));
    else if (IS("hsrm")) printf("%d\n", hashset_remove(HS, (void*)a[0]));
    else if (IS("hshas")) printf("%d\n", hashset_is_member(HS, (void*)a[0]));
    else if (IS("hsnum")) printf("%zu\n", hashset_num_items(HS));
    else if (IS("hsit")) {     /* all members; those divisible by a[0] are removed on the way */
      hashset_itr_t it = hashset_iterator(HS);
      printf("[");
      int first = 1;
      while (hashset_iterator_has_next(it)) {
        if (hashset_iterator_next(it) < 0) { printf("%s-1", first ? "" : ","); break; }
        long v = (long)hashset_iterator_value(it);
        printf("%s%ld", first ? "" : ",", v);
        first = 0;
        if (a[0] && v % a[0] == 0) hashset_remove(HS, (void*)v);
      }
      if (hashset_iterator_next(it) >= 0) printf("%s-2", first ? "" : ",");
      printf("]\n");
      free(it);
    } else if (IS("hp")) { HP = hashmap_object2int_new((size_t)a[0], NULL); printf("0\n"); }
    else if (IS("hpfree")) { hashmap_object2int_free(HP); printf("0\n"); }
    else if (IS("hpput")) { hashmap_object2int_put(HP, objs + a[0], (int)a[1]); printf("0\n"); }
    else if (IS("hpget")) printf("%d\n", hashmap_object2int_get(HP, objs + a[0]));
    else if (IS("hi")) { HI = hm_int_new((size_t)a[0], -1); printf("0\n"); }
    else if (IS("hifree")) { hm_int_free(HI); printf("0\n"); }
    else if (IS("hiput")) { hm_int_put(HI, (int)a[0], (int)a[1]); printf("0\n"); }
    else if (IS("higet")) printf("%d\n", hm_int_get(HI, (int)a[0]));
    else if (IS("vec")) {
      char* dirt = malloc(4096);      /* what malloc returns need not be zero */
      memset(dirt, 0x5a, 4096);
      free(dirt);
      VEC = vector_new((size_t)a[0]);
      printf("0\n");
    } else if (IS("vecfree")) { vector_free(&VEC); printf("0\n"); }
    else if (IS("vpush")) { vector_push(&VEC, (void*)a[0]); printf("0\n"); }
    else if (IS("vall")) {
      void* arr[8];
      for (int i = 0; i < a[0]; i++) arr[i] = (void*)(a[1] + i);
      vector_pushall(&VEC, arr, (size_t)a[0]);
      printf("0\n");
    } else if (IS("vpop")) printf("%lld\n", (long long)vector_pop(&VEC));
    else if (IS("vget")) printf("%lld\n", (long long)*vector_at(&VEC, (size_t)a[0]));
    else if (IS("vset")) { *vector_at(&VEC, (size_t)a[0]) = (void*)a[1]; printf("0\n"); }
    else if (IS("vsize")) printf("%zu\n", vector_size(&VEC));
    else if (IS("vvote")) { vector_vote(&VEC); printf("0\n"); }
    else if (IS("mr")) {     /* mr size then digits, radixes, permutation, count: increments and reads */
      int sz = (int)a[0], d[4], r[4], p[4], cnt, m = 0;
      char* q = line + n;
      sscanf(q, "%*d%n", &m);
      q += m;
      for (int k = 0; k < 3; k++)
        for (int i = 0; i < sz; i++) { sscanf(q, "%d%n", (k == 0 ? d : k == 1 ? r : p) + i, &m); q += m; }
      sscanf(q, "%d", &cnt);
      mixed_radix_int_t x = {sz, d, r, p};
      printf("[");
      for (int i = 0; i < cnt; i++) {
        printf("%s[%d", i ? "," : "", mixed_radix_to_int(&x));
        for (int j = 0; j < sz; j++) printf(",%d", mixed_radix_parent(&x, j));
        for (int j = 0; j < sz; j++) printf(",%d", d[j]);
        printf("]");
        mixed_radix_incr(&x);
      }
      printf("]\n");
    } else if (IS("tadd")) printf("[%lld,0]\n", (long long)lf_time_add(a[0], a[1]));
    else if (IS("gadd") || IS("gcmp")) {
      tag_t x = {a[0], (microstep_t)a[1]}, y = {a[2], (microstep_t)a[3]};
      if (IS("gcmp")) printf("%d\n", lf_tag_compare(x, y));
      else { tag_t r = lf_tag_add(x, y); printf("[%lld,%u]\n", (long long)r.time, r.microstep); }
    } else if (IS("gdel") || IS("gstr")) {
      tag_t x = {a[0], (microstep_t)a[1]};
      tag_t r = IS("gdel") ? lf_delay_tag(x, a[2]) : lf_delay_strict(x, a[2]);
      printf("[%lld,%u]\n", (long long)r.time, r.microstep);
    } else if (IS("read") || IS("comma")) {
      static char buf[LF_TIME_BUFFER_LENGTH + 64];
      memset(buf, '#', sizeof buf);
      size_t l = IS("read") ? lf_readable_time(buf, a[0]) : lf_comma_separated_time(buf, a[0]);
      buf[sizeof buf - 1] = 0;
      printf("[%zu,\"%s\"]\n", l, buf);
    } else { fprintf(stderr, "unknown %s\n", c); return 9; }
  }
  return 0;
}
int _lf_clock_gettime(instant_t* t) { *t = 0; return 0; }
