ID = "U02-microsteps-saturate"
PROPERTY = "U02"
NEEDS = "the sum of two tags whose microsteps do not fit in 32 bits"
BREAKS = "A sum of tags whose microsteps overflow is a finite tag that is earlier than it should be, instead of FOREVER."
EDITS = [("core/tag.c", """  if (result.microstep < a.microstep) {
    return FOREVER_TAG;
""", """  if (result.microstep < a.microstep) {
    result.microstep = UINT_MAX;
""")]
DEMO = """
C = r'''
#include <stdio.h>
#include "tag.h"
int main(void) {
  tag_t a = {5, UINT_MAX - 3}, b = {0, 10};
  tag_t r = lf_tag_add(a, b);
  if (lf_tag_compare(r, FOREVER_TAG) != 0) { printf("(%lld, %u)\\n", (long long)r.time, r.microstep); return 1; }
  b.microstep = 3;
  r = lf_tag_add(a, b);
  if (r.time != 5 || r.microstep != UINT_MAX) return 2;
  return 0;
}
'''
rc, out = cprog(C, ["core/tag.c", "core/clock.c", "core/utils/util.c"])
if rc:
    fail(rc, out)
ok()
"""
