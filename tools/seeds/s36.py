ID = "U01-lookup-stops-at-deleted"
PROPERTY = "U01"
NEEDS = "two members of a hash set that collide, the first of which is removed"
BREAKS = "A lookup stops at the place of a removed member, so that members that collided with it are not found any more."
EDITS = [("core/utils/hashset/hashset.c", """  while (set->items[ii] != 0) {
    if (set->items[ii] == item) {
      return 1;""", """  while (set->items[ii] > (void*)1) {
    if (set->items[ii] == item) {
      return 1;""")]
DEMO = """
C = r'''
#include <stdio.h>
#include <stdlib.h>
#include "hashset/hashset.h"
int main(void) {
  srand(1);
  for (int k = 0; k < 500; k++) {
    hashset_t s = hashset_create(3);
    char in[64] = {0};
    for (int j = 0; j < 60; j++) {
      size_t i = 2 + rand() % 62;
      if (rand() % 3) { hashset_add(s, (void*)(i * 8)); in[i] = 1; }
      else { hashset_remove(s, (void*)(i * 8)); in[i] = 0; }
      for (size_t m = 2; m < 64; m++)
        if (!!hashset_is_member(s, (void*)(m * 8)) != in[m]) { printf("%zu is %sfound\\n", m, in[m] ? "not " : ""); return 1; }
    }
    hashset_destroy(s);
  }
  return 0;
}
'''
rc, out = cprog(C, ["core/utils/hashset/hashset.c", "core/utils/util.c"])
if rc:
    fail(rc, out)
ok()
"""
