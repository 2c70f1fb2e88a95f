ID = "R02-third-event-collides"
PROPERTY = "R02"
NEEDS = "three events of one action without minimum spacing, scheduled for the same tag"
BREAKS = "Only one microstep is tried to avoid a collision, so that a third event gets the tag of the second one."
EDITS = [("lib/schedule.c", """    if (found != NULL) {
      while (found != NULL) {
        intended_tag.microstep++;
        e->base.tag = intended_tag;
        found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
      }
""", """    if (found != NULL) {
      intended_tag.microstep++;
      e->base.tag = intended_tag;
""")]
DEMO = """
p = Prog()
p.cfg = dict(workers=1)
r = p.reactor()
a = p.action(r, min=MS)
x = p.rx(r, [("S", 0)])
for _ in range(3):
    p.op(x, "sched", a, 0)
p.rx(r, [("A", a)])
for ev in runs("st", p, range(2)):
    if tags(ev, 1) != [(MS, 0), (MS, 1), (MS, 2)]:
        fail(tags(ev, 1))
ok()
"""
