ID = "U01-removal-only-sinks"
PROPERTY = "U01"
NEEDS = "removal of an element deep in a queue whose last element belongs to another branch with smaller priorities"
BREAKS = "The element that takes the place of a removed one only sinks, so it stays below one with a greater priority and the queue is no longer ordered."
EDITS = [("core/utils/pqueue_base.c", """q->getpri(q->d[posn])) == 1)
    bubble_up(q, posn);""", """q->getpri(q->d[posn])) == 1 && posn * 2 < q->size)
    bubble_up(q, posn);""")]
DEMO = """
C = r'''
#include <stdio.h>
#include <stdlib.h>
#include "pqueue_base.h"
typedef struct { size_t pos; long pri; } e_t;
static int cmp(pqueue_pri_t a, pqueue_pri_t b) { return a > b ? 1 : a < b ? -1 : 0; }
static pqueue_pri_t pri(void* e) { return ((e_t*)e)->pri; }
static size_t gp(void* e) { return ((e_t*)e)->pos; }
static void sp(void* e, size_t p) { ((e_t*)e)->pos = p; }
static int eq(void* a, void* b) { return a == b; }
static void prt(void* e) {}
int main(void) {
  srand(1);
  for (int k = 0; k < 2000; k++) {
    pqueue_t* q = pqueue_init(10, cmp, pri, gp, sp, eq, prt);
    e_t e[30];
    int in[30], n = 3 + rand() % 27;
    for (int i = 0; i < n; i++) { e[i].pri = rand() % 50; in[i] = 1; pqueue_insert(q, &e[i]); }
    for (int j = 0; j < n / 3; j++) { int i = rand() % n; if (in[i]) { in[i] = 0; pqueue_remove(q, &e[i]); } }
    long last = -1;
    e_t* x;
    while ((x = pqueue_pop(q))) {
      if (x->pri < last) { printf("out of order: %ld after %ld\\n", x->pri, last); return 1; }
      last = x->pri;
    }
    pqueue_free(q);
  }
  return 0;
}
'''
rc, out = cprog(C, ["core/utils/pqueue_base.c", "core/utils/util.c"])
if rc:
    fail(rc, out)
ok()
"""
