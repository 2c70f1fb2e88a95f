// Federates that follow the federation protocol, for the RTI: one thread each, behaviour from a text
// and from the run's random numbers.  They record nothing: the byte streams are the history.
#include <arpa/inet.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include "sim.h"
#define MAXF 16
#define NEVER_D (-1)
typedef struct { int64_t t; int64_t m; } tag; // time relative to the start time
static const tag FOREV = {INT64_MAX, UINT32_MAX};
static const tag NEV = {-1, 0};
static int cmp(tag a, tag b) { return a.t < b.t ? -1 : a.t > b.t ? 1 : a.m < b.m ? -1 : a.m > b.m; }
static tag delay(tag a, int64_t d) {
  if (d < 0 || a.t == INT64_MAX) return a;
  if (d == 0) { a.m++; return a; }
  tag r = {a.t + d, 0};
  return r;
}
typedef struct { int from, to; int64_t d; int ord, dep; } link_t;
typedef struct { int kind, after, arg; } plan_t; // kind: 's' stop request, 'r' resign, 'f' fail
typedef struct { int src; tag t; int absent; } in_t;
typedef struct {
  int id, fd, joined;
  tag ev[400]; int nev;        // own events
  tag pt[400]; int npt;        // tags of PTAGs, executed only to tell that there are no messages
  in_t in[2000]; int nin;      // messages and absences received
  tag done, cur, granted, prov, net, stop, barrier;
  int ltc_after_net, stop_replied, stop_sent, stop_have, done_count, ended;
  plan_t pl[8]; int npl;
  int64_t start, jdelay;
  int hb; // heartbeats: promises without events
} fed_t;
static fed_t F[MAXF];
static link_t L[64];
static int nf, nl, slow = 20, pmsg = 60, pabs = 50, big = 10, udp = 65535, port = 15045, query = 0;
static char fid[64] = "fed";
static tag tstop;
static uint32_t msgid;
static int live, feds;

static int pct(int p) { return (int)(sim_rand() % 100) < p; }
static void e16(unsigned char* b, uint16_t v) { b[0] = v & 255; b[1] = v >> 8; }
static void e32(unsigned char* b, uint32_t v) { for (int i = 0; i < 4; i++) b[i] = (v >> (8 * i)) & 255; }
static void e64(unsigned char* b, uint64_t v) { for (int i = 0; i < 8; i++) b[i] = (v >> (8 * i)) & 255; }
static uint64_t dN(const unsigned char* b, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | b[i]; return v; }
static int put(int fd, const void* b, size_t n) {
  const unsigned char* p = b;
  while (n > 0) {
    ssize_t k = write(fd, p, n);
    if (k <= 0) return -1;
    p += k;
    n -= (size_t)k;
  }
  return 0;
}
static int get(int fd, void* b, size_t n) {
  unsigned char* p = b;
  while (n > 0) {
    ssize_t k = read(fd, p, n);
    if (k <= 0) return -1;
    p += k;
    n -= (size_t)k;
  }
  return 0;
}
static void etag(unsigned char* b, fed_t* f, tag t) {
  if (t.t == INT64_MAX) e64(b, INT64_MAX);
  else e64(b, (uint64_t)(t.t + f->start));
  e32(b + 8, (uint32_t)t.m);
}
static tag dtag(const unsigned char* b, fed_t* f) {
  tag t;
  int64_t x = (int64_t)dN(b, 8);
  t.m = (int64_t)dN(b + 8, 4);
  t.t = x == INT64_MAX ? INT64_MAX : x - f->start;
  return t;
}
static void send_tag(fed_t* f, int type, tag t) {
  unsigned char b[13];
  b[0] = (unsigned char)type;
  etag(b + 1, f, t);
  put(f->fd, b, 13);
}
static void dawdle(void) {
  if (pct(slow)) sim_sleep(1 + sim_rand() % 400);
}
static int conn(void) {
  int fd = socket(AF_INET, SOCK_STREAM, 0);
  struct sockaddr_in a;
  memset(&a, 0, sizeof a);
  a.sin_family = AF_INET;
  a.sin_port = htons((uint16_t)port);
  while (connect(fd, (struct sockaddr*)&a, sizeof a) != 0) {
    if (feds == 0) { close(fd); return -1; } // The RTI is gone.
    sim_sleep(1000000);
  }
  return fd;
}
static void send_ids(int fd, int id, const char* name) {
  unsigned char b[80];
  size_t n = strlen(name);
  b[0] = 1;
  e16(b + 1, (uint16_t)id);
  b[3] = (unsigned char)n;
  memcpy(b + 4, name, n);
  put(fd, b, 4 + n);
}
static void add_ev(fed_t* f, tag t) {
  for (int i = 0; i < f->nev; i++) if (!cmp(f->ev[i], t)) return;
  if (f->nev < 400) f->ev[f->nev++] = t;
}
static tag next_of(fed_t* f) {
  tag r = f->stop;
  for (int i = 0; i < f->nev; i++) if (cmp(f->ev[i], f->done) > 0 && cmp(f->ev[i], r) < 0) r = f->ev[i];
  for (int i = 0; i < f->npt; i++) if (cmp(f->pt[i], f->done) > 0 && cmp(f->pt[i], r) < 0) r = f->pt[i];
  for (int i = 0; i < f->nin; i++) if (!f->in[i].absent && cmp(f->in[i].t, f->done) > 0 && cmp(f->in[i].t, r) < 0) r = f->in[i].t;
  return r;
}
// Whether anything happens at a tag, as far as known.
static int active(fed_t* f, tag t) {
  if (!cmp(t, f->stop)) return 1;
  for (int i = 0; i < f->nev; i++) if (!cmp(f->ev[i], t)) return 1;
  for (int i = 0; i < f->nin; i++) if (!f->in[i].absent && !cmp(f->in[i].t, t)) return 1;
  return 0;
}
// The tag at which this federate can stop at the earliest.
static tag stop_tag_of(fed_t* f) {
  tag r = cmp(f->cur, f->done) > 0 ? f->cur : f->done;
  if (r.t < 0) r.t = 0, r.m = 0;
  r.m++;
  if (cmp(r, f->stop) > 0) r = f->stop;
  return r;
}
// Reads and handles one message.  Returns 0 at the end of the stream.
static int handle(fed_t* f) {
  unsigned char b[64];
  if (get(f->fd, b, 1)) return 0;
  switch (b[0]) {
  case 7: case 8: {
    if (get(f->fd, b + 1, 12)) return 0;
    tag t = dtag(b + 1, f);
    if (b[0] == 7) { if (cmp(t, f->granted) > 0) f->granted = t; }
    else {
      if (cmp(t, f->prov) > 0) f->prov = t;
      if (cmp(t, f->done) > 0 && f->npt < 400) f->pt[f->npt++] = t;
    }
    break;
  }
  case 5: {
    if (get(f->fd, b + 1, 20)) return 0;
    uint32_t n = (uint32_t)dN(b + 5, 4);
    tag t = dtag(b + 9, f);
    unsigned char* d = malloc(n + 1);
    if (get(f->fd, d, n)) { free(d); return 0; }
    free(d);
    in_t x = {.src = (int)dN(b + 1, 2), .t = t};
    if (f->nin < 2000) f->in[f->nin++] = x;
    break;
  }
  case 23: {
    if (get(f->fd, b + 1, 16)) return 0;
    in_t x = {.src = (int)dN(b + 1, 2), .t = dtag(b + 5, f), .absent = 1};
    if (f->nin < 2000) f->in[f->nin++] = x;
    break;
  }
  case 10: {
    if (get(f->fd, b + 1, 12)) return 0;
    tag t = dtag(b + 1, f);
    tag mine = stop_tag_of(f);
    if (cmp(t, mine) > 0) mine = t;
    if (!f->stop_replied && !f->stop_have) {
      f->stop_replied = 1;
      if (cmp(mine, f->barrier) < 0) f->barrier = mine;
      send_tag(f, 11, mine);
    }
    break;
  }
  case 12: {
    if (get(f->fd, b + 1, 12)) return 0;
    tag t = dtag(b + 1, f);
    f->stop = t;
    f->stop_have = 1;
    f->barrier = FOREV;
    break;
  }
  case 14: if (get(f->fd, b + 1, 8)) return 0; break;
  default: return 0;
  }
  return 1;
}
static int has(fed_t* f, int up) {
  for (int i = 0; i < nl; i++) if ((up ? L[i].to : L[i].from) == f->id) return 1;
  return 0;
}
// Whether a federate is part of a cycle of connections without delay.
static int inzdc(int id) {
  int seen[MAXF] = {0}, again = 1;
  while (again) {
    again = 0;
    for (int i = 0; i < nl; i++)
      if (L[i].d < 0 && (L[i].from == id || seen[L[i].from]) && !seen[L[i].to]) seen[L[i].to] = again = 1;
  }
  return seen[id];
}
static int known(fed_t* f, link_t* l, tag t) {
  if (cmp(f->granted, t) >= 0 || cmp(f->prov, t) > 0) return 1;
  for (int i = 0; i < f->nin; i++) if (f->in[i].src == l->from && cmp(f->in[i].t, t) >= 0) return 1;
  return 0;
}
static void emit_msg(fed_t* f, link_t* l, tag t) {
  uint32_t n = 8 + (pct(big) ? sim_rand() % 900 : sim_rand() % 12);
  unsigned char* b = malloc(21 + n);
  b[0] = 5;
  e16(b + 1, (uint16_t)f->id);
  e16(b + 3, (uint16_t)l->to);
  e32(b + 5, n);
  etag(b + 9, f, t);
  for (uint32_t i = 0; i < n; i++) b[21 + i] = (unsigned char)sim_rand();
  e32(b + 21, (uint32_t)f->id);
  e32(b + 25, ++msgid);
  put(f->fd, b, 21 + n);
  free(b);
}
static void emit_abs(fed_t* f, link_t* l, tag t) {
  unsigned char b[17];
  b[0] = 23;
  e16(b + 1, (uint16_t)f->id);
  e16(b + 3, (uint16_t)l->to);
  etag(b + 5, f, t);
  put(f->fd, b, 17);
}
static int wait_in(fed_t* f) { return handle(f); }
static void leave(fed_t* f, int how) {
  unsigned char b = how == 'f' ? 25 : 4;
  put(f->fd, &b, 1);
  if (how != 'f') shutdown(f->fd, SHUT_WR);
  char x[64];
  while (read(f->fd, x, sizeof x) > 0) {}
  close(f->fd);
  f->ended = 1;
}
static void* fed_main(void* arg) {
  fed_t* f = arg;
  unsigned char b[1024];
  sim_sleep(f->jdelay);
  f->fd = conn();
  send_ids(f->fd, f->id, fid);
  if (get(f->fd, b, 1) || b[0] != 255) { sim_emit("{\"e\":\"nojoin\",\"f\":%d}", f->id); close(f->fd); live--; feds--; return NULL; }
  f->joined = 1;
  // Neighbours.
  int nu = 0, nd = 0;
  size_t at = 9;
  for (int i = 0; i < nl; i++) if (L[i].to == f->id) { e16(b + at, (uint16_t)L[i].from); e64(b + at + 2, L[i].d < 0 ? (uint64_t)INT64_MIN : (uint64_t)L[i].d); at += 10; nu++; }
  for (int i = 0; i < nl; i++) if (L[i].from == f->id) { e16(b + at, (uint16_t)L[i].to); at += 2; nd++; }
  b[0] = 24;
  e32(b + 1, (uint32_t)nu);
  e32(b + 5, (uint32_t)nd);
  put(f->fd, b, at);
  b[0] = 254;
  e16(b + 1, (uint16_t)udp);
  put(f->fd, b, 3);
  if (pct(query)) { b[0] = 15; e32(b + 1, (uint32_t)(20000 + f->id)); put(f->fd, b, 5); }
  dawdle();
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  b[0] = 2;
  e64(b + 1, (uint64_t)(ts.tv_sec * 1000000000LL + ts.tv_nsec) + sim_rand() % 1000);
  put(f->fd, b, 9);
  if (get(f->fd, b, 1)) goto gone;
  if (b[0] != 2) { sim_emit("{\"e\":\"notstart\",\"f\":%d,\"got\":%d}", f->id, b[0]); goto gone; }
  if (get(f->fd, b, 8)) goto gone;
  f->start = (int64_t)dN(b, 8);
  if (pct(query)) {
    b[0] = 13;
    e16(b + 1, (uint16_t)(sim_rand() % (unsigned)nf));
    put(f->fd, b, 3);
  }
  int up = has(f, 1), down = has(f, 0);
  tag last_sent = NEV;
  int ltc_last = 1;
  for (;;) {
    while (sim_sock_pending(f->fd) > 0 && pct(90)) if (!wait_in(f)) goto gone;
    dawdle();
    for (int i = 0; i < f->npl; i++)
      if (f->pl[i].kind && f->pl[i].after <= f->done_count) {
        int k = f->pl[i].kind;
        if (k == 's') {
          f->pl[i].kind = 0;
          if (!f->stop_replied && !f->stop_have && !f->stop_sent) {
            tag t = stop_tag_of(f);
            f->stop_sent = f->stop_replied = 1;
            if (cmp(t, f->barrier) < 0) f->barrier = t;
            send_tag(f, 10, t);
          }
        } else if (!(f->stop_sent || f->stop_replied) || f->stop_have) { leave(f, k); goto out; }
      }
    tag n = next_of(f);
    if (n.t == INT64_MAX && !up) { leave(f, 'r'); goto out; }
    if (up || down) {
      int need = up ? cmp(f->granted, n) < 0 && cmp(f->prov, n) < 0 : 1;
      if (need && (ltc_last || cmp(last_sent, n) != 0)) {
        if (!up && f->hb && pct(30)) { // a promise that is not an event
          tag h = {f->done.t + 1 + (int64_t)(sim_rand() % 3), 0};
          if (cmp(h, n) < 0 && cmp(h, last_sent) > 0 && cmp(h, f->done) > 0) { send_tag(f, 6, h); last_sent = h; ltc_last = 1; dawdle(); continue; }
        }
        send_tag(f, 6, n);
        last_sent = n;
        ltc_last = 0;
      }
      if (up && cmp(f->granted, n) < 0 && cmp(f->prov, n) < 0) { if (!wait_in(f)) goto gone; continue; }
    }
    if (n.t == INT64_MAX || cmp(n, f->barrier) >= 0) { if (!wait_in(f)) goto gone; continue; }
    // Execute n.
    int prov = up && cmp(f->granted, n) < 0 && cmp(f->prov, n) == 0;
    f->cur = n;
    char outdone[64] = {0};
    for (int o = 0; o < 16; o++)
      for (int i = 0; i < nl; i++) {
        link_t* l = &L[i];
        if (l->from != f->id || l->ord != o || outdone[i]) continue;
        outdone[i] = 1;
        // An output that depends on inputs waits until these are known.
        if (l->dep && prov)
          for (int q = 0; q < nl; q++)
            while (L[q].to == f->id && L[q].d < 0 && inzdc(L[q].from) && L[q].ord < l->ord && !known(f, &L[q], n)) if (!wait_in(f)) goto gone;
        tag t = delay(n, l->d);
        if (msgid < 600 && active(f, n) && pct(pmsg) && cmp(t, f->stop) <= 0) {
          emit_msg(f, l, t);
          if (pct(15) && (l->d >= 0 || !inzdc(l->to))) emit_msg(f, l, t);
        } else if (l->d < 0 && ((inzdc(f->id) && inzdc(l->to)) || pct(pabs))) emit_abs(f, l, t);
        dawdle();
      }
    if (prov)
      for (int q = 0; q < nl; q++)
        while (L[q].to == f->id && L[q].d < 0 && inzdc(L[q].from) && !known(f, &L[q], n)) if (!wait_in(f)) goto gone;
    f->done = n;
    f->done_count++;
    if (up || down) { send_tag(f, 9, n); ltc_last = 1; }
    if (cmp(n, f->stop) >= 0) { dawdle(); leave(f, 'r'); goto out; }
  }
gone:
  sim_emit("{\"e\":\"gone\",\"f\":%d}", f->id);
  close(f->fd);
out:
  live--;
  feds--;
  return NULL;
}
typedef struct { int kind, id; int64_t after; } bad_t;
static bad_t B[8];
static int nb;
static void* bad_main(void* arg) {
  bad_t* x = arg;
  sim_sleep(x->after);
  if (x->kind == 'd') while (!F[x->id].joined) sim_sleep(100);
  int fd = conn();
  if (fd < 0) { live--; return NULL; }
  unsigned char b[16];
  char name[80];
  switch (x->kind) {
  case 'f': send_ids(fd, x->id, "other"); break;
  case 'p': snprintf(name, sizeof name, "%s", fid); name[strlen(name) - 1] = 0; send_ids(fd, x->id, name); break;
  case 'l': snprintf(name, sizeof name, "%sx", fid); send_ids(fd, x->id, name); break;
  case 'e': send_ids(fd, x->id, ""); break;
  case 'd': case 'o': send_ids(fd, x->id, fid); break;
  case 'c': close(fd); live--; return NULL;
  case 'h': b[0] = 1; b[1] = 0; put(fd, b, 2); close(fd); live--; return NULL;
  case 'g': b[0] = 1; e16(b + 1, 0); b[3] = (unsigned char)(strlen(fid) + 3); put(fd, b, 4); put(fd, fid, strlen(fid)); close(fd); live--; return NULL;
  case 'w': b[0] = 16; e16(b + 1, 0); b[3] = 0; put(fd, b, 4); break;
  case 'n': b[0] = 100; e16(b + 1, 0); b[3] = 0; put(fd, b, 4); break;
  case 'u': b[0] = 6; e16(b + 1, 0); b[3] = 0; put(fd, b, 4); break;
  }
  while (read(fd, b, 1) > 0) {}
  close(fd);
  live--;
  return NULL;
}
int fakes_main(const char* text) {
  char* t = strdup(text);
  tstop = FOREV;
  for (char* line = strtok(t, "\n"); line; line = strtok(NULL, "\n")) {
    long a[6] = {0};
    char s[64] = "", k[32] = "";
    sscanf(line, "%31s", k);
    if (!strcmp(k, "n")) sscanf(line, "%*s %d", &nf);
    else if (!strcmp(k, "fid")) sscanf(line, "%*s %63s", fid);
    else if (!strcmp(k, "opt")) sscanf(line, "%*s %d %d %d %d %d %d", &slow, &pmsg, &pabs, &big, &port, &query);
    else if (!strcmp(k, "stop")) { sscanf(line, "%*s %ld %ld", a, a + 1); tstop.t = a[0]; tstop.m = a[1]; }
    else if (!strcmp(k, "link")) { sscanf(line, "%*s %ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4); link_t l = {(int)a[0], (int)a[1], a[2], (int)a[3], (int)a[4]}; L[nl++] = l; }
    else if (!strcmp(k, "ev")) { sscanf(line, "%*s %ld %ld %ld", a, a + 1, a + 2); tag x = {a[1], a[2]}; add_ev(&F[a[0]], x); }
    else if (!strcmp(k, "join")) { sscanf(line, "%*s %ld %ld", a, a + 1); F[a[0]].jdelay = a[1]; }
    else if (!strcmp(k, "hb")) { sscanf(line, "%*s %ld", a); F[a[0]].hb = 1; }
    else if (!strcmp(k, "plan")) { sscanf(line, "%*s %ld %1s %ld", a, s, a + 1); plan_t p = {s[0], (int)a[1], 0}; F[a[0]].pl[F[a[0]].npl++] = p; }
    else if (!strcmp(k, "bad")) { sscanf(line, "%*s %1s %ld %ld", s, a, a + 1); bad_t x = {s[0], (int)a[0], a[1]}; B[nb++] = x; }
  }
  for (int i = 0; i < nf; i++) {
    F[i].id = i;
    F[i].done = F[i].cur = F[i].granted = F[i].prov = F[i].net = NEV;
    F[i].stop = tstop;
    F[i].barrier = FOREV;
    if (tstop.t != INT64_MAX || 1) { tag z = {0, 0}; add_ev(&F[i], z); } // startup
  }
  live = nf + nb;
  feds = nf;
  for (int i = 0; i < nf; i++) sim_thread_create(fed_main, &F[i], "fed");
  for (int i = 0; i < nb; i++) sim_thread_create(bad_main, &B[i], "bad");
  while (live > 0) sim_sleep(1000000);
  return 0;
}
