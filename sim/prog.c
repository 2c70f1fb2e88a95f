// A table-driven stand-in for the code that lfc generates from a Lingua Franca program.
// The program is a text (see /verif/DESIGN.md); reaction bodies run scripted operations and
// record what they see.  Only the interface that generated code uses is used here.
#include "sim.h"
#include <assert.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "platform.h"
#include "low_level_platform.h"
#include "lf_types.h"
#include "environment.h"
#include "reactor.h"
#include "reactor_common.h"
#include "api/schedule.h"
#include "tracepoint.h"
#include "port.h"
#include "pqueue_tag.h"
#if !defined(LF_SINGLE_THREADED)
#include "threaded/reactor_threaded.h"
#include "threaded/scheduler.h"
#include "threaded/scheduler_instance.h"
#include "threaded/watchdog.h"
#endif
#ifdef FEDERATED
#include "federate.h"
#include "clock-sync.h"
#include "net_common.h"
#include "net_util.h"
#endif
#ifdef MODAL_REACTORS
#include "modal_models/modes.h"
#endif

#define MAXR 32
#define MAXM 24
#define MAXTM 24
#define MAXA 24
#define MAXP 64
#define MAXX 64
#define MAXO 64
#define MAXW 8
#define MAXASY 64
#define MAXE 4

typedef struct {
  self_base_t base;
  int id;
  int64_t sv[2], sv0[2]; // state variables and their initial values
} self_t_;
typedef struct { // Layout starts as generated action structs do.
  lf_action_base_t base;
  int value;
} act_t;
typedef struct {
  lf_port_base_t base;
  int value_i;
  void* value;
  size_t length;
#ifdef FEDERATED
  tag_t intended_tag;
  interval_t physical_time_of_arrival;
#endif
} port_t_;

typedef struct { int magic, id, len, pad; } payload_t;
#define PL_ALIVE 0x600D
#define PL_DEAD 0xDEAD
#define CANARY ((size_t)987654321)

enum { K_T, K_A, K_P, K_S, K_D, K_Z, K_M, K_W };
static const char KCH[] = "TAPSDZMW";
enum { O_SCHED, O_SET, O_FWD, O_WORK, O_SPIN, O_STOP, O_MODE, O_WDSTART, O_WDSTOP, O_WCOPY, O_SV, O_ASYNC, O_CHKDL, O_SCHEDFWD, O_MITER, O_EXIT, O_SENDFED, O_TRC, O_SENDABS, O_RECV, O_CLK };
typedef struct { int lo, hi, mod, rem, kind; long a[4]; } op_t;
typedef struct {
  int id, reactor, number, level, mode, nops, h_nops;
  long deadline, inf_deadline;
  int stp;
  op_t op[MAXO], hop[MAXO];
  int ntr, tr_kind[24], tr_id[24];
  int nsrc, src_kind[24], src_id[24];
  int neff, eff[24];
  int count;
  int last_enabling;
  int nw_input, nw_absent; // federated roles
  reaction_t r;
} rx_t;
typedef struct { int reactor, mode, env; long offset, period; trigger_t t; reaction_t* rs[24]; int n; } tm_t;
typedef struct { int reactor, mode, kind; long min, spacing; int policy, physical; trigger_t t; reaction_t* rs[24]; int n; act_t a; int fed_src, net; } ac_t;
typedef struct { int reactor, kind, group, chan; port_t_ p; trigger_t t; reaction_t* rs[24]; int n; } po_t;
typedef struct { int reactor, parent_of; char name[8]; int env; } mo_t;
typedef struct { int reactor, mode; long min; trigger_t t; reaction_t* rs[24]; int n; int nops; op_t op[MAXO];
#if !defined(LF_SINGLE_THREADED)
  watchdog_t w;
#endif
  int count; } wd_t;
typedef struct { int group, action; long at, extra; int what; } asy_t;

static int n_r, n_m, n_t, n_a, n_p, n_x, n_w, n_asy, n_env = 1;
static rx_t X[MAXX];
static tm_t TM[MAXTM];
static ac_t AC[MAXA];
static po_t PO[MAXP];
static wd_t WD[MAXW];
static asy_t ASY[MAXASY];
static int r_env[MAXR], r_nmodes[MAXR], r_init[MAXR], r_pmode[MAXR];
static self_t_* SELF[MAXR];
static int m_reactor[MAXM];
#ifdef MODAL_REACTORS
static reactor_mode_t MODES[MAXM];
static char m_name[MAXM][8];
#endif
static long cfg_workers = 1, cfg_timeout = -1, cfg_fast = 0, cfg_keepalive = 0, cfg_svreset = 0;
#define MAXGRP 16
static int grp_n[MAXGRP], grp_port[MAXGRP][32], grp_sparse[MAXGRP];
static lf_port_base_t* grp_ports[MAXGRP][32];
static lf_sparse_io_record_t* grp_rec[MAXGRP];
static environment_t envs[MAXE];
static int n_payload;

#define EL(t) ((long)((t) - lf_time_start()))
static long ph(void) { return (long)(sim_now() - lf_time_start()); }
// The physical time that the call since sim_clock_mark() has read.
static long read_ph(void) { return sim_clock_value() >= 0 ? (long)(sim_clock_value() - lf_time_start()) : ph() - (long)sim_clock_age(); }
static long tagtime(tag_t t) { return (long)(t.time - lf_time_start()); }
static long stoptime(tag_t t) { return t.time == FOREVER || t.time == NEVER ? -1 : tagtime(t); }
static int mynode(void) { return sim_node_index(); }

/* ----------------------------------------------------------------- payloads (token kinds) */
static int in_call; // within a schedule call, which is atomic here: its frees are reported as its effects
static void payload_free(void* v) {
  payload_t* p = (payload_t*)v;
  sim_emit("{\"e\":\"free\",\"n\":%d,\"v\":%d,\"ok\":%d,\"c\":%d,\"tg\":[%ld,%u]}", mynode(), p->id, p->magic == PL_ALIVE, in_call,
           (long)(envs[0].current_tag.time - lf_time_start()), envs[0].current_tag.microstep);
  p->magic = PL_DEAD; // memory is kept so that a use after free shows
}
// The number of elements of the array with a given value.
static int arr_len(int id) { return (id & 1) ? 1 : 1 + ((id >> 1) & 3); }
static int arr_is(lf_token_t* tk, int id) { // an array of equal elements, as long as it is to be
  if ((int)tk->length != arr_len(id)) return 0;
  for (int i = 0; i < arr_len(id); i++)
    if (((int*)tk->value)[i] != id) return 0;
  return 1;
}
static int* arr_new(int id) {
  int* v = (int*)malloc((size_t)arr_len(id) * sizeof(int));
  for (int i = 0; i < arr_len(id); i++) v[i] = id;
  return v;
}
static void* payload_new(int id) {
  static payload_t arena[1 << 15]; // not for free(): only the destructor may end a payload
  payload_t* p = n_payload < (1 << 15) ? &arena[n_payload] : (payload_t*)malloc(sizeof *p);
  p->magic = PL_ALIVE;
  p->id = id;
  p->len = arr_len(id);
  n_payload++;
  sim_emit("{\"e\":\"alloc\",\"n\":%d,\"v\":%d}", mynode(), id);
  return p;
}
static int copy_ids = 500000000; // a copy has the length of what it is a copy of
static int copy_id(int of) { return (copy_ids += 8) | (of & 7); }
static void* payload_copy(void* v) {
  payload_t* o = (payload_t*)v;
  int id = copy_id(o->id);
  payload_t* p = (payload_t*)payload_new(id);
  sim_emit("{\"e\":\"copy\",\"n\":%d,\"v\":%d,\"of\":%d,\"ok\":%d}", mynode(), id, o->id, o->magic == PL_ALIVE);
  return p;
}

/* ----------------------------------------------------------------- bodies */
static void run_ops(rx_t* x, op_t* ops, int nops, self_t_* self, int inv);
static void async_start(int group);
static const char* cat_in(char* b, rx_t* x) {
  int n = 0;
  for (int k = 0; k < x->ntr + x->nsrc; k++) {
    int kind = k < x->ntr ? x->tr_kind[k] : x->src_kind[k - x->ntr];
    int id = k < x->ntr ? x->tr_id[k] : x->src_id[k - x->ntr];
    int pres = 0;
    long val = 0;
    int ok = 1;
    if (kind == K_T) { pres = TM[id].t.status == present; }
    else if (kind == K_A) {
      ac_t* a = &AC[id];
      pres = a->t.status == present;
      if (pres && a->kind > 0) {
        lf_token_t* tk = a->t.tmplt.token;
        if (tk == NULL || tk->value == NULL) { val = -1; }
        else if (a->kind == 2) { payload_t* pl = (payload_t*)tk->value; val = pl->id; ok = pl->magic == PL_ALIVE && (int)tk->length == pl->len; }
        else { val = *(int*)tk->value; ok = a->net || arr_is(tk, (int)val); }
      }
    } else if (kind == K_P) {
      po_t* p = &PO[id];
      pres = p->p.base.is_present;
      if (pres) {
        if (p->kind >= 2) {
          lf_token_t* tk = p->p.base.tmplt.token;
          if (!tk || !tk->value) val = -1;
          else if (p->kind == 3) { val = *(int*)tk->value; ok = arr_is(tk, (int)val); }
          else { payload_t* pl = (payload_t*)tk->value; val = pl->id; ok = pl->magic == PL_ALIVE && (int)tk->length == pl->len; }
        } else val = p->p.value_i;
      }
    } else continue;
    n += sprintf(b + n, "%s[\"%c\",%d,%d,%ld,%d]", n ? "," : "", KCH[kind], id, pres ? 1 : 0, val, ok);
  }
  b[n] = 0;
  return b;
}
static void body(void* s, int xi, int handler) {
  self_t_* self = (self_t_*)s;
  rx_t* x = &X[xi];
  environment_t* env = self->base.environment;
  char b[4096];
  int inv = handler == 1 ? x->count++ : x->count++;
  tag_t tg = lf_tag(env);
  // As in generated code: the struct of an action refers to the token of the trigger.
  for (int k = 0; k < x->ntr + x->nsrc; k++) {
    int kind = k < x->ntr ? x->tr_kind[k] : x->src_kind[k - x->ntr];
    int id = k < x->ntr ? x->tr_id[k] : x->src_id[k - x->ntr];
    if (kind == K_A && AC[id].kind > 0) _lf_replace_template_token((token_template_t*)&AC[id].a, AC[id].t.tmplt.token);
  }
  char extra[256] = "";
#ifdef FEDERATED_DECENTRALIZED
  {
    int n = 0;
    for (int k = 0; k < x->ntr + x->nsrc; k++) {
      int kind = k < x->ntr ? x->tr_kind[k] : x->src_kind[k - x->ntr];
      int id = k < x->ntr ? x->tr_id[k] : x->src_id[k - x->ntr];
      if (kind == K_P && PO[id].p.base.is_present && PO[id].p.intended_tag.time != NEVER)
        n += sprintf(extra + n, "%s[%d,%ld,%u]", n ? "," : ",\"it\":[", id, tagtime(PO[id].p.intended_tag), PO[id].p.intended_tag.microstep);
      if (kind == K_A && AC[id].t.status == present && AC[id].t.intended_tag.time != NEVER)
        n += sprintf(extra + n, "%s[%d,%ld,%u]", n ? "," : ",\"it\":[", 1000 + id, tagtime(AC[id].t.intended_tag), AC[id].t.intended_tag.microstep);
    }
    if (n) strcat(extra, "]");
  }
#endif
  sim_emit("{\"e\":\"r\",\"n\":%d,\"x\":%d,\"h\":%d,\"w\":%d,\"tg\":[%ld,%u],\"ph\":%ld,\"i\":%d,\"sv\":[%ld,%ld],\"in\":[%s]%s}", mynode(), xi,
           handler, sim_thread_index(), tagtime(tg), tg.microstep, ph(), inv, (long)self->sv[0], (long)self->sv[1], cat_in(b, x), extra);
  // Token-typed inputs: as generated code does, refresh local copies.
  if (handler) run_ops(x, x->hop, x->h_nops, self, inv);
  else run_ops(x, x->op, x->nops, self, inv);
  sim_emit("{\"e\":\"x\",\"n\":%d,\"x\":%d,\"ph\":%ld}", mynode(), xi, ph());
  sim_yield();
}
#define F4(M, b) M(b) M(b + 1) M(b + 2) M(b + 3)
#define BODY(i) static void JOIN(rf_, i)(void* s) { body(s, i, 0); }
#define LIST64(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19) M(20) \
  M(21) M(22) M(23) M(24) M(25) M(26) M(27) M(28) M(29) M(30) M(31) M(32) M(33) M(34) M(35) M(36) M(37) M(38) M(39) M(40) M(41) M(42) \
  M(43) M(44) M(45) M(46) M(47) M(48) M(49) M(50) M(51) M(52) M(53) M(54) M(55) M(56) M(57) M(58) M(59) M(60) M(61) M(62) M(63)
#define DEF(i) static void rf_##i(void* s) { body(s, i, 0); } static void df_##i(void* s) { body(s, i, 1); } static void sf_##i(void* s) { body(s, i, 2); }
LIST64(DEF)
#define RF(i) rf_##i,
#define DF(i) df_##i,
#define SF(i) sf_##i,
static reaction_function_t rfs[] = {LIST64(RF)};
static reaction_function_t dfs[] = {LIST64(DF)};
static reaction_function_t sfs[] = {LIST64(SF)};

static int async_val = 900000;
static void emit_sched(int xi, int aid, long extra, int val, long p0, long p1, int blk, trigger_handle_t h, environment_t* env) {
  tag_t tg = env->current_tag, st = env->stop_tag; // exact: nothing else has run since the call returned
  sim_emit("{\"e\":\"s\",\"n\":%d,\"x\":%d,\"a\":%d,\"d\":%ld,\"v\":%d,\"p0\":%ld,\"p1\":%ld,\"b\":%d,\"ret\":%d,\"tg\":[%ld,%u],\"st\":[%ld,%u]}", mynode(), xi, aid, extra, val,
           p0, p1, blk, h > 0 ? 1 : (h < 0 ? -1 : 0), tagtime(tg), tg.microstep, stoptime(st), st.microstep);
}
static void emit_stop(int xi, environment_t* env) {
  tag_t tg = env->current_tag, st = env->stop_tag;
  sim_emit("{\"e\":\"stop\",\"n\":%d,\"x\":%d,\"tg\":[%ld,%u],\"st\":[%ld,%u],\"ph\":%ld}", mynode(), xi, tagtime(tg), tg.microstep,
           stoptime(st), st.microstep, ph());
}
static void do_sched(int xi, int aid, long extra, int val, environment_t* env) {
  ac_t* a = &AC[aid];
  void* pl = a->kind == 2 ? payload_new(val) : a->kind ? arr_new(val) : NULL;
  sim_freeze_clock(1);
  sim_atomic_begin();
  long p0 = ph();
  int b0 = sim_block_count();
  trigger_handle_t h;
  sim_clock_mark();
  in_call = 1;
  if (a->kind == 0) h = lf_schedule(&a->a, extra);
  else if (a->kind == 1) {
    if (val & 1) h = lf_schedule_int(&a->a, extra, val);
    else h = lf_schedule_copy(&a->a, extra, pl, (size_t)arr_len(val));
    free(pl);
  } else h = lf_schedule_value(&a->a, extra, pl, (size_t)arr_len(val));
  long p1 = read_ph();
  in_call = 0;
  emit_sched(xi, aid, extra, a->kind ? val : 0, p0, p1, sim_block_count() - b0, h, a->a.base.parent->environment);
  sim_atomic_end();
  sim_freeze_clock(0);
  sim_yield();
}
static void do_set(rx_t* x, int pid, int val) {
  po_t* p = &PO[pid];
  if (p->kind >= 2) {
    void* pl = p->kind == 3 ? (void*)arr_new(val) : payload_new(val);
    port_t_* out = &p->p;
    lf_set_present((lf_port_base_t*)out);
    lf_token_t* token = _lf_initialize_token_with_value((token_template_t*)out, pl, (size_t)arr_len(val));
    out->base.tmplt.token = token;
    out->value = token->value;
    out->base.tmplt.length = token->length;
  } else {
    p->p.value_i = val;
    lf_set_present((lf_port_base_t*)&p->p);
  }
  sim_emit("{\"e\":\"p\",\"n\":%d,\"x\":%d,\"p\":%d,\"v\":%d}", mynode(), x->id, pid, val);
}
static int value_id(int kind, lf_token_t* tk) { return kind == 3 ? *(int*)tk->value : ((payload_t*)tk->value)->id; }
static void set_token(po_t* p, lf_token_t* tk) {
  port_t_* out = &p->p;
  lf_set_present((lf_port_base_t*)out);
  _lf_replace_template_token((token_template_t*)out, tk);
  out->value = tk->value;
  out->base.tmplt.length = tk->length;
}
static void run_ops(rx_t* x, op_t* ops, int nops, self_t_* self, int inv) {
  environment_t* env = self->base.environment;
  for (int i = 0; i < nops; i++) {
    op_t* o = &ops[i];
    if (inv < o->lo || (o->hi >= 0 && inv >= o->hi) || (o->mod > 1 && inv % o->mod != o->rem)) continue;
    int val = (x->id + 1) * 1000000 + (inv % 31000) * 32 + i; // different for every value of a run
    switch (o->kind) {
    case O_SCHED: do_sched(x->id, (int)o->a[0], o->a[1], val, env); break;
    case O_SET: do_set(x, (int)o->a[0], val); break;
    case O_FWD: { // forward the token of a present input on an output
      po_t* in = &PO[o->a[0]];
      if (in->kind >= 2 && in->p.base.is_present && in->p.base.tmplt.token) {
        int v = value_id(in->kind, in->p.base.tmplt.token);
        set_token(&PO[o->a[1]], in->p.base.tmplt.token);
        sim_emit("{\"e\":\"p\",\"n\":%d,\"x\":%d,\"p\":%ld,\"v\":%d,\"fwd\":1}", mynode(), x->id, o->a[1], v);
      }
      break;
    }
    case O_SCHEDFWD: { // schedule an action with the token of a present input port or action
      lf_token_t* tk = NULL;
      if (o->a[3] == 1) { if (AC[o->a[0]].t.status == present) tk = AC[o->a[0]].t.tmplt.token; }
      else if (PO[o->a[0]].p.base.is_present) tk = PO[o->a[0]].p.base.tmplt.token;
      if (tk && tk->value) {
        int v = ((payload_t*)tk->value)->id;
        sim_freeze_clock(1);
        sim_atomic_begin();
        long p0 = ph();
        int b0 = sim_block_count();
        sim_clock_mark();
        in_call = 1;
        trigger_handle_t h = lf_schedule_token(&AC[o->a[1]].a, o->a[2], tk);
        long p1 = read_ph();
        in_call = 0;
        emit_sched(x->id, (int)o->a[1], o->a[2], v, p0, p1, sim_block_count() - b0, h, env);
        sim_atomic_end();
        sim_freeze_clock(0);
        sim_yield();
      }
      break;
    }
    case O_WCOPY: { // writable copy of an input, modified and sent on
      po_t* in = &PO[o->a[0]];
      if (in->p.base.is_present && in->p.base.tmplt.token) {
        lf_token_t* mine = in->p.base.tmplt.token;
        int of = value_id(in->kind, mine);
        lf_token_t* tk = lf_writable_copy(&in->p.base);
        int nid = value_id(in->kind, tk);
        if (in->kind == 3 && tk->value != mine->value) { // what it has been given is for it to change
          nid = copy_id(of);
          sim_emit("{\"e\":\"copy\",\"n\":%d,\"v\":%d,\"of\":%d,\"ok\":%d}", mynode(), nid, of, arr_is(tk, of));
          for (size_t k = 0; k < tk->length; k++) ((int*)tk->value)[k] = nid;
        }
        sim_emit("{\"e\":\"wc\",\"n\":%d,\"x\":%d,\"p\":%ld,\"of\":%d,\"v\":%d}", mynode(), x->id, o->a[0], of, nid);
        if (o->a[1] >= 0) {
          set_token(&PO[o->a[1]], tk);
          sim_emit("{\"e\":\"p\",\"n\":%d,\"x\":%d,\"p\":%ld,\"v\":%d,\"fwd\":1}", mynode(), x->id, o->a[1], nid);
        }
      }
      break;
    }
    case O_WORK: sim_sleep(o->a[0]); break;
    case O_SPIN: for (long k = 0; k < o->a[0]; k++) sim_yield(); break;
    case O_STOP:
      sim_emit("{\"e\":\"stopcall\",\"n\":%d,\"x\":%d}", mynode(), x->id);
      sim_atomic_begin();
      lf_request_stop();
      emit_stop(x->id, env);
      sim_atomic_end();
      break;
#ifdef MODAL_REACTORS
    case O_MODE: {
      reactor_mode_t* mode = &MODES[o->a[0]];
      _LF_SET_MODE_WITH_TYPE(mode, (lf_mode_change_type_t)o->a[1]);
      sim_emit("{\"e\":\"mode\",\"n\":%d,\"x\":%d,\"m\":%ld,\"k\":%ld}", mynode(), x->id, o->a[0], o->a[1]);
      break;
    }
#endif
#if !defined(LF_SINGLE_THREADED)
    case O_WDSTART:
      sim_freeze_clock(1);
      sim_atomic_begin();
      lf_watchdog_start(&WD[o->a[0]].w, o->a[1]);
      sim_emit("{\"e\":\"wds\",\"n\":%d,\"x\":%d,\"wd\":%ld,\"d\":%ld,\"tg\":[%ld,%u],\"ph\":%ld}", mynode(), x->id, o->a[0], o->a[1],
               tagtime(lf_tag(env)), lf_tag(env).microstep, ph());
      sim_atomic_end();
      sim_freeze_clock(0);
      break;
    case O_WDSTOP:
      sim_atomic_begin();
      lf_watchdog_stop(&WD[o->a[0]].w);
      sim_emit("{\"e\":\"wdp\",\"n\":%d,\"x\":%d,\"wd\":%ld,\"ph\":%ld}", mynode(), x->id, o->a[0], ph());
      sim_atomic_end();
      break;
#endif
    case O_SV:
      self->sv[o->a[0]] = o->a[1] ? o->a[1] : self->sv[o->a[0]] + 1;
      sim_emit("{\"e\":\"sv\",\"n\":%d,\"x\":%d,\"k\":%ld,\"v\":%ld}", mynode(), x->id, o->a[0], (long)self->sv[o->a[0]]);
      break;
    case O_ASYNC: async_start((int)o->a[0]); break;
    case O_CHKDL: {
      sim_freeze_clock(1);
      sim_atomic_begin();
      bool v = lf_check_deadline(self, o->a[0] != 0);
      sim_emit("{\"e\":\"chk\",\"n\":%d,\"x\":%d,\"ret\":%d,\"inv\":%ld,\"ph\":%ld}", mynode(), x->id, v ? 1 : 0, o->a[0], ph());
      sim_atomic_end();
      sim_freeze_clock(0);
      break;
    }
    case O_MITER: { // iterate over a multiport
      int g = (int)o->a[0];
      lf_multiport_iterator_t it = _lf_multiport_iterator_impl(grp_ports[g], grp_n[g]);
      char b[512];
      int n = 0, c = 0;
      int ch;
      while ((ch = lf_multiport_next(&it)) >= 0 && c++ < 64) n += sprintf(b + n, "%s%d", n ? "," : "", ch);
      b[n] = 0;
      if (grp_rec[g] && grp_rec[g]->present_channels[grp_rec[g]->capacity] != CANARY) sim_emit("{\"e\":\"misuse\",\"what\":\"sparse\"}");
      sim_emit("{\"e\":\"mit\",\"n\":%d,\"x\":%d,\"g\":%d,\"ch\":[%s]}", mynode(), x->id, g, b);
      break;
    }
#ifdef FEDERATED
    case O_SENDFED: { // a0 port (local), a1 dest port id, a2 dest fed, a3 delay (-1: none, -2: physical connection)
      po_t* p = &PO[o->a[0]];
      int msg = p->p.value_i;
      interval_t dl = o->a[3] < 0 ? NEVER : o->a[3];
      if (p->p.base.is_present) {
        sim_emit("{\"e\":\"fsend\",\"n\":%d,\"x\":%d,\"p\":%ld,\"f\":%ld,\"d\":%ld,\"v\":%d,\"tg\":[%ld,%u],\"ph\":%ld}", mynode(), x->id, o->a[1],
                 o->a[2], o->a[3], msg, tagtime(lf_tag(env)), lf_tag(env).microstep, ph());
        if (o->a[3] == -2) {
          lf_send_message(MSG_TYPE_P2P_MESSAGE, (unsigned short)o->a[1], (unsigned short)o->a[2], "federate", sizeof msg, (unsigned char*)&msg);
          break;
        }
#ifdef FEDERATED_CENTRALIZED
        lf_send_tagged_message(env, dl, MSG_TYPE_TAGGED_MESSAGE, (unsigned short)o->a[1], (unsigned short)o->a[2], "federate via the RTI",
                               sizeof msg, (unsigned char*)&msg);
#else
        lf_send_tagged_message(env, dl, MSG_TYPE_P2P_TAGGED_MESSAGE, (unsigned short)o->a[1], (unsigned short)o->a[2], "federate",
                               sizeof msg, (unsigned char*)&msg);
#endif
      }
      break;
    }
    case O_SENDABS: { // a0 port (local), a1 dest port id, a2 dest fed, a3 delay
      if (PO[o->a[0]].p.base.is_present) break;
      sim_emit("{\"e\":\"fabs\",\"n\":%d,\"x\":%d,\"p\":%ld,\"f\":%ld,\"d\":%ld,\"tg\":[%ld,%u]}", mynode(), x->id, o->a[1], o->a[2], o->a[3],
               tagtime(lf_tag(env)), lf_tag(env).microstep);
      lf_send_port_absent_to_federate(env, o->a[3] < 0 ? NEVER : o->a[3], (unsigned short)o->a[1], (unsigned short)o->a[2]);
      break;
    }
    case O_RECV: { // a0 network action, a1 port
      ac_t* a = &AC[o->a[0]];
      po_t* p = &PO[o->a[1]];
      if (a->t.status == present && a->t.tmplt.token != NULL && a->t.tmplt.token->value != NULL) {
        p->p.value_i = *(int*)a->t.tmplt.token->value;
        p->p.intended_tag = a->t.intended_tag;
        p->p.physical_time_of_arrival = a->t.physical_time_of_arrival;
        lf_set_present((lf_port_base_t*)&p->p);
        sim_emit("{\"e\":\"p\",\"n\":%d,\"x\":%d,\"p\":%ld,\"v\":%d}", mynode(), x->id, o->a[1], p->p.value_i);
      }
      break;
    }
#endif
    case O_CLK: {     // the physical clock as the program sees it
      instant_t t = lf_time_physical();
      sim_emit("{\"e\":\"clk\",\"n\":%d,\"p\":%lld,\"now\":%ld,\"lt\":%lld}", mynode(), (long long)t, (long)sim_now(), (long long)lf_tag(env).time);
      break;
    }
    case O_EXIT: exit((int)o->a[0]);
    default: break;
    }
  }
}
#ifdef FEDERATED
// Network sender / port-absent / receiver reactions use their own functions (below).
#endif

static void* async_thread(void* arg) {
  int group = (int)(intptr_t)arg;
#if !defined(LF_SINGLE_THREADED)
  initialize_lf_thread_id();
#endif
  for (int i = 0; i < n_asy; i++)
    if (ASY[i].group == group) {
      long w = ASY[i].at - ph();
      sim_sleep(w > 0 ? w : 0);
      if (ASY[i].what == 0) do_sched(-1, ASY[i].action, ASY[i].extra, async_val++, NULL);
      else if (ASY[i].what == 1) {
        sim_emit("{\"e\":\"stopcall\",\"n\":%d,\"x\":%d}", mynode(), -1);
        sim_atomic_begin();
        lf_request_stop();
        emit_stop(-1, &envs[0]);
        sim_atomic_end();
      }
    }
  return NULL;
}
static void async_start(int group) { sim_thread_create(async_thread, (void*)(intptr_t)group, "async"); }

/* ----------------------------------------------------------------- watchdog handlers */
#if !defined(LF_SINGLE_THREADED)
static void wd_body(void* s, int wi) {
  self_t_* self = (self_t_*)s;
  wd_t* w = &WD[wi];
  environment_t* env = self->base.environment;
  sim_emit("{\"e\":\"wdh\",\"n\":%d,\"wd\":%d,\"ph\":%ld}", mynode(), wi, ph());
  static rx_t fake;
  rx_t f = fake;
  f.id = -1;
  int inv = w->count++;
  for (int i = 0; i < w->nops; i++) {
    op_t* o = &w->op[i];
    if (inv < o->lo || (o->hi >= 0 && inv >= o->hi) || (o->mod > 1 && inv % o->mod != o->rem)) continue;
    if (o->kind == O_SCHED) do_sched(-1, (int)o->a[0], o->a[1], async_val++, env);
    else if (o->kind == O_WDSTART || o->kind == O_WDSTOP || o->kind == O_SPIN || o->kind == O_WORK) run_ops(&f, o, 1, self, inv);
  }
  sim_emit("{\"e\":\"wdx\",\"n\":%d,\"wd\":%d,\"ph\":%ld}", mynode(), wi, ph());
}
#define WDEF(i) static void wf_##i(void* s) { wd_body(s, i); }
WDEF(0) WDEF(1) WDEF(2) WDEF(3) WDEF(4) WDEF(5) WDEF(6) WDEF(7)
static watchdog_function_t wfs[] = {wf_0, wf_1, wf_2, wf_3, wf_4, wf_5, wf_6, wf_7};
#endif

/* ----------------------------------------------------------------- federation tables */
#ifdef FEDERATED
#define MAXIN 16
int prog_fed_id = 0;
lf_action_base_t* _lf_action_table[MAXIN];
interval_t _lf_action_delay_table[MAXIN];
size_t _lf_action_table_size;
lf_action_base_t* _lf_zero_delay_cycle_action_table[MAXIN];
size_t _lf_zero_delay_cycle_action_table_size;
reaction_t* network_input_reactions[MAXIN];
size_t num_network_input_reactions;
reaction_t* port_absent_reaction[MAXIN];
size_t num_port_absent_reactions;
static int n_up, up_id[8], n_down, down_id[8];
static long up_delay[8];
static long cfg_phys_min = -1;
static int p2p_in, p2p_out_n, p2p_out[8];
static char fedid[64] = "fed", rtihost[] = "localhost";
static long cfg_rtiport = 15045, cfg_sta = 0;
#ifdef FEDERATED_DECENTRALIZED
staa_t* staa_lst[MAXIN];
size_t staa_lst_size;
static staa_t staa_s[MAXIN];
static lf_action_base_t* staa_actions[MAXIN][MAXIN];
#endif
void lf_send_neighbor_structure_to_RTI(int rti_socket) {
  size_t n = 1 + 8 + (size_t)n_up * (2 + 8) + (size_t)n_down * 2;
  unsigned char b[512];
  b[0] = MSG_TYPE_NEIGHBOR_STRUCTURE;
  encode_int32(n_up, &b[1]);
  encode_int32(n_down, &b[5]);
  size_t k = 9;
  for (int i = 0; i < n_up; i++) {
    encode_uint16((uint16_t)up_id[i], &b[k]);
    encode_int64(up_delay[i] < 0 ? NEVER : up_delay[i], &b[k + 2]);
    k += 10;
  }
  for (int i = 0; i < n_down; i++) { encode_uint16((uint16_t)down_id[i], &b[k]); k += 2; }
  assert(k == n);
  write_to_socket_fail_on_error(&rti_socket, n, b, NULL, "Failed to send the neighbor structure message to the RTI.");
}
extern federate_instance_t _fed;
static void fed_preamble(environment_t* env) {
  lf_mutex_init(&lf_outbound_socket_mutex);
  extern lf_mutex_t socket_mutex;
  lf_mutex_init(&socket_mutex);
  lf_cond_init(&lf_port_status_changed, &env->mutex);
  _lf_my_fed_id = prog_fed_id;
  lf_set_federation_id(fedid);
  _fed.number_of_inbound_p2p_connections = (size_t)p2p_in;
  _fed.number_of_outbound_p2p_connections = (size_t)p2p_out_n;
  for (int i = 0; i < NUMBER_OF_FEDERATES; i++) {
    _fed.sockets_for_inbound_p2p_connections[i] = -1;
    _fed.sockets_for_outbound_p2p_connections[i] = -1;
  }
  _fed.has_upstream = n_up > 0;
  _fed.has_downstream = n_down > 0;
  if (cfg_phys_min >= 0) _fed.min_delay_from_physical_action_to_federate_output = cfg_phys_min;
#ifdef FEDERATED_DECENTRALIZED
  lf_set_stp_offset(cfg_sta);
#endif
  lf_connect_to_rti(rtihost, (int)cfg_rtiport);
#if (LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT)
  synchronize_initial_physical_clock_with_rti(&_fed.socket_TCP_RTI);
#endif
  if (p2p_in > 0) {
    lf_create_server(0);
    lf_thread_create(&_fed.inbound_p2p_handling_thread_id, lf_handle_p2p_connections_from_federates, env);
  }
  for (int i = 0; i < p2p_out_n; i++) lf_connect_to_federate((uint16_t)p2p_out[i]);
}
#endif

/* ----------------------------------------------------------------- generated-code interface */
int _lf_get_environments(environment_t** e) { *e = envs; return n_env; }
static int env_of_reactor(int r) { return r_env[r]; }
void lf_create_environments(void) {
  for (int e = 0; e < n_env; e++) {
    int nt = 0, ns = 0, nd = 0, nz = 0, np = 0, nm = 0, nsr = 0, nw = 0;
    for (int i = 0; i < n_t; i++) nt += env_of_reactor(TM[i].reactor) == e;
    for (int i = 0; i < n_x; i++)
      if (env_of_reactor(X[i].reactor) == e)
        for (int k = 0; k < X[i].ntr; k++) {
          ns += X[i].tr_kind[k] == K_S;
          nd += X[i].tr_kind[k] == K_D;
          nz += X[i].tr_kind[k] == K_Z;
        }
    for (int i = 0; i < n_a; i++) np += env_of_reactor(AC[i].reactor) == e;
    for (int i = 0; i < n_p; i++) np += env_of_reactor(PO[i].reactor) == e;
    for (int i = 0; i < n_r; i++)
      if (r_env[i] == e && r_nmodes[i] > 0) { nm++; }
    if (cfg_svreset) for (int i = 0; i < n_r; i++) if (r_env[i] == e && r_pmode[i] >= 0) nsr++;
    for (int i = 0; i < n_w; i++) nw += env_of_reactor(WD[i].reactor) == e;
    char nm_[16];
    snprintf(nm_, sizeof nm_, "env%d", e);
#if !defined(LF_SINGLE_THREADED)
    int nwk = e == 0 ? (int)_lf_number_of_workers : (int)cfg_workers;
#else
    int nwk = 1;
#endif
    environment_init(&envs[e], nm_, e, nwk, nt, ns, nd, nz, np, nm, nsr, nw, "trace.lft");
  }
}
void lf_set_default_command_line_options(void) {}
#ifndef FEDERATED
void lf_terminate_execution(environment_t* env) { (void)env; }
void logical_tag_complete(tag_t t) { (void)t; }
#else
// As generated code does (the call site is compiled in for centralized coordination only).
void logical_tag_complete(tag_t t) {
#ifdef FEDERATED_CENTRALIZED
  lf_latest_tag_confirmed(t);
#else
  (void)t;
#endif
}
#endif
static void link_reaction(int kind, int id, rx_t* x) {
  if (kind == K_T) { TM[id].rs[TM[id].n++] = &x->r; }
  else if (kind == K_A) { AC[id].rs[AC[id].n++] = &x->r; }
  else if (kind == K_P) { PO[id].rs[PO[id].n++] = &x->r; }
  else if (kind == K_W) { WD[id].rs[WD[id].n++] = &x->r; }
}
static char rname[MAXX][16];
void _lf_initialize_trigger_objects(void) {
#if !defined(LF_SINGLE_THREADED)
  static size_t per_level[MAXE][DEFAULT_MAX_REACTION_LEVEL + 1];
#endif
  int is_present_n[MAXE] = {0}, timer_n[MAXE] = {0}, su_n[MAXE] = {0}, sd_n[MAXE] = {0}, rs_n[MAXE] = {0};
  for (int i = 0; i < n_r; i++) {
    SELF[i] = (self_t_*)lf_new_reactor(sizeof(self_t_));
    SELF[i]->id = i;
    SELF[i]->base.environment = &envs[r_env[i]];
    SELF[i]->sv[0] = SELF[i]->sv0[0] = 0;
    SELF[i]->sv[1] = SELF[i]->sv0[1] = 100;
#if !defined(LF_SINGLE_THREADED)
    SELF[i]->base.reactor_mutex = NULL;
    for (int k = 0; k < n_w; k++)
      if (WD[k].reactor == i) {
        SELF[i]->base.reactor_mutex = calloc(1, sizeof(lf_mutex_t));
        lf_mutex_init((lf_mutex_t*)SELF[i]->base.reactor_mutex);
        break;
      }
#endif
  }
#ifdef MODAL_REACTORS
  for (int i = 0; i < n_m; i++) {
    MODES[i].state = &SELF[m_reactor[i]]->base._lf__mode_state;
    sprintf(m_name[i], "m%d", i);
    MODES[i].name = m_name[i];
    MODES[i].deactivation_time = 0;
    MODES[i].flags = 0;
  }
  int modal_n[MAXE] = {0}, reset_n[MAXE] = {0};
  for (int i = 0; i < n_r; i++) {
    reactor_mode_state_t* st = &SELF[i]->base._lf__mode_state;
    st->parent_mode = r_pmode[i] >= 0 ? &MODES[r_pmode[i]] : NULL;
    if (r_nmodes[i] > 0) {
      st->initial_mode = &MODES[r_init[i]];
      st->current_mode = st->initial_mode;
      st->next_mode = NULL;
      st->mode_change = no_transition;
      envs[r_env[i]].modes->modal_reactor_states[modal_n[r_env[i]]++] = st;
    }
  }
  if (cfg_svreset)
    for (int i = 0; i < n_r; i++)
      if (r_pmode[i] >= 0) {
        environment_t* e = &envs[r_env[i]];
        if (!e->modes) continue;
        e->modes->state_resets[reset_n[r_env[i]]++] = (mode_state_variable_reset_data_t){
            .mode = &MODES[r_pmode[i]], .target = &SELF[i]->sv[1], .source = &SELF[i]->sv0[1], .size = sizeof(int64_t)};
      }
#define MODE_OF(m) ((m) >= 0 ? &MODES[m] : NULL)
#else
#define MODE_OF(m) NULL
#endif
  // Reactions.
  for (int i = 0; i < n_x; i++) {
    rx_t* x = &X[i];
    reaction_t* r = &x->r;
    memset(r, 0, sizeof *r);
    r->number = x->number;
    r->function = rfs[i];
    r->self = SELF[x->reactor];
    r->deadline = x->deadline;
    r->deadline_violation_handler = x->deadline >= 0 ? dfs[i] : NULL;
    r->STP_handler = x->stp ? sfs[i] : NULL;
    r->is_STP_violated = false;
    sprintf(rname[i], "x%d", i);
    r->name = rname[i];
    r->mode = MODE_OF(x->mode);
    r->index = lf_combine_deadline_and_level(x->inf_deadline < 0 ? FOREVER : x->inf_deadline, x->level);
    r->last_enabling_reaction = NULL;
    for (int k = 0; k < x->ntr; k++) link_reaction(x->tr_kind[k], x->tr_id[k], x);
#if !defined(LF_SINGLE_THREADED)
    per_level[r_env[x->reactor]][x->level]++;
#endif
  }
  for (int i = 0; i < n_x; i++)
    if (X[i].last_enabling >= 0) X[i].r.last_enabling_reaction = &X[X[i].last_enabling].r;
  for (int i = 0; i < n_t; i++) {
    trigger_t* t = &TM[i].t;
    int e = env_of_reactor(TM[i].reactor);
    t->reactions = TM[i].rs;
    t->number_of_reactions = TM[i].n;
    t->is_timer = true;
    t->offset = TM[i].offset;
    t->period = TM[i].period;
    t->last_tag = NEVER_TAG;
    t->mode = MODE_OF(TM[i].mode);
#ifdef FEDERATED
    t->last_known_status_tag = NEVER_TAG;
    t->intended_tag = NEVER_TAG;
    t->physical_time_of_arrival = NEVER;
#endif
    envs[e].timer_triggers[timer_n[e]++] = t;
  }
  for (int i = 0; i < n_a; i++) {
    trigger_t* t = &AC[i].t;
    int e = env_of_reactor(AC[i].reactor);
    t->reactions = AC[i].rs;
    t->number_of_reactions = AC[i].n;
    t->is_timer = false;
    t->offset = AC[i].min;
    t->period = AC[i].spacing;
    t->policy = (lf_spacing_policy_t)AC[i].policy;
    t->is_physical = AC[i].physical;
    t->last_tag = NEVER_TAG;
    t->mode = MODE_OF(AC[i].mode);
#ifdef FEDERATED
    t->last_known_status_tag = NEVER_TAG;
    t->intended_tag = NEVER_TAG;
    t->physical_time_of_arrival = NEVER;
#endif
    _lf_initialize_template((token_template_t*)t, AC[i].kind == 2 ? sizeof(payload_t) : sizeof(int));
    _lf_initialize_template((token_template_t*)&AC[i].a, AC[i].kind == 2 ? sizeof(payload_t) : sizeof(int));
    if (AC[i].kind == 2) {
      t->tmplt.type.destructor = payload_free;
      t->tmplt.type.copy_constructor = payload_copy;
      AC[i].a.base.tmplt.type.destructor = payload_free;
      AC[i].a.base.tmplt.type.copy_constructor = payload_copy;
    }
    AC[i].a.base.trigger = t;
    AC[i].a.base.parent = &SELF[AC[i].reactor]->base;
    AC[i].a.base.source_id = AC[i].fed_src;
    envs[e].is_present_fields[is_present_n[e]] = (bool*)&t->status;
#ifdef FEDERATED_DECENTRALIZED
    envs[e]._lf_intended_tag_fields[is_present_n[e]] = &t->intended_tag;
#endif
    is_present_n[e]++;
  }
  for (int g = 0; g < MAXGRP; g++)
    if (grp_n[g] > 0 && grp_sparse[g] >= 0) {
      grp_rec[g] = (lf_sparse_io_record_t*)calloc(1, sizeof(lf_sparse_io_record_t));
      grp_rec[g]->size = 0;
      grp_rec[g]->capacity = (size_t)grp_sparse[g];
      grp_rec[g]->present_channels = (size_t*)calloc((size_t)grp_sparse[g] + 1, sizeof(size_t));
      grp_rec[g]->present_channels[grp_sparse[g]] = CANARY;
      environment_t* e = &envs[env_of_reactor(PO[grp_port[g][0]].reactor)];
      if (e->sparse_io_record_sizes.start == NULL) e->sparse_io_record_sizes = vector_new(4);
      vector_push(&e->sparse_io_record_sizes, (void*)&grp_rec[g]->size);
    }
  for (int i = 0; i < n_p; i++) {
    po_t* p = &PO[i];
    int e = env_of_reactor(p->reactor);
    trigger_t* t = &p->t;
    t->reactions = p->rs;
    t->number_of_reactions = p->n;
    t->last_tag = NEVER_TAG;
#ifdef FEDERATED
    t->last_known_status_tag = NEVER_TAG;
    t->intended_tag = NEVER_TAG;
    t->physical_time_of_arrival = NEVER;
    p->p.intended_tag = NEVER_TAG;
#endif
    p->p.base.source_reactor = &SELF[p->reactor]->base;
    p->p.base.destination_channel = -1;
    p->p.base.num_destinations = 0;
    p->p.base.sparse_record = NULL;
    if (p->kind >= 2) {
      _lf_initialize_template((token_template_t*)&p->p, p->kind == 3 ? sizeof(int) : sizeof(payload_t));
      if (p->kind == 2) {
        p->p.base.tmplt.type.destructor = payload_free;
        p->p.base.tmplt.type.copy_constructor = payload_copy;
      }
      // The number of reactors that read the port.
      int seen[MAXR] = {0}, nd = 0;
      for (int k = 0; k < n_x; k++)
        for (int j = 0; j < X[k].ntr + X[k].nsrc; j++) {
          int kk = j < X[k].ntr ? X[k].tr_kind[j] : X[k].src_kind[j - X[k].ntr];
          int ii = j < X[k].ntr ? X[k].tr_id[j] : X[k].src_id[j - X[k].ntr];
          if (kk == K_P && ii == i && !seen[X[k].reactor]) { seen[X[k].reactor] = 1; nd++; }
        }
      p->p.base.num_destinations = nd;
    }
    if (p->group >= 0) {
      grp_ports[p->group][p->chan] = &p->p.base;
      p->p.base.destination_channel = p->chan;
      p->p.base.sparse_record = grp_rec[p->group];
    }
    envs[e].is_present_fields[is_present_n[e]] = &p->p.base.is_present;
#ifdef FEDERATED_DECENTRALIZED
    envs[e]._lf_intended_tag_fields[is_present_n[e]] = &p->p.intended_tag;
#endif
    is_present_n[e]++;
  }
  // Output wiring.
  for (int i = 0; i < n_x; i++) {
    rx_t* x = &X[i];
    reaction_t* r = &x->r;
    r->num_outputs = (size_t)x->neff;
    struct allocation_record_t** al = &SELF[x->reactor]->base.allocations;
    if (x->neff > 0) {
      r->triggers = (trigger_t***)lf_allocate((size_t)x->neff, sizeof(trigger_t**), al);
      r->triggered_sizes = (int*)lf_allocate((size_t)x->neff, sizeof(int), al);
      r->output_produced = (bool**)lf_allocate((size_t)x->neff, sizeof(bool*), al);
      for (int k = 0; k < x->neff; k++) {
        po_t* p = &PO[x->eff[k]];
        r->output_produced[k] = &p->p.base.is_present;
        r->triggered_sizes[k] = p->n > 0 ? 1 : 0;
        if (p->n > 0) {
          r->triggers[k] = (trigger_t**)lf_allocate(1, sizeof(trigger_t*), al);
          r->triggers[k][0] = &p->t;
        }
      }
    }
    int e = env_of_reactor(x->reactor);
    for (int k = 0; k < x->ntr; k++) {
      if (x->tr_kind[k] == K_S) envs[e].startup_reactions[su_n[e]++] = r;
      if (x->tr_kind[k] == K_D) envs[e].shutdown_reactions[sd_n[e]++] = r;
      if (x->tr_kind[k] == K_Z) envs[e].reset_reactions[rs_n[e]++] = r;
    }
  }
#if !defined(LF_SINGLE_THREADED)
  int wdn[MAXE] = {0};
  for (int i = 0; i < n_w; i++) {
    wd_t* w = &WD[i];
    int e = env_of_reactor(w->reactor);
    w->t.reactions = w->rs;
    w->t.number_of_reactions = w->n;
    w->t.last_tag = NEVER_TAG;
    w->t.is_physical = true;
    w->w.base = &SELF[w->reactor]->base;
    w->w.expiration = NEVER;
    w->w.min_expiration = w->min;
    w->w.watchdog_function = wfs[i];
    w->w.trigger = &w->t;
    envs[e].watchdogs[wdn[e]++] = &w->w;
  }
  for (int e = 0; e < n_env; e++) {
    size_t maxl = 0;
    for (int l = 0; l <= DEFAULT_MAX_REACTION_LEVEL; l++) if (per_level[e][l]) maxl = (size_t)l;
    sched_params_t sp = {.num_reactions_per_level = &per_level[e][0], .num_reactions_per_level_size = maxl + 1};
    lf_sched_init(&envs[e], (size_t)envs[e].num_workers, &sp);
  }
#endif
#ifdef FEDERATED
  for (int i = 0; i < n_x; i++) {
    if (X[i].nw_input) network_input_reactions[num_network_input_reactions++] = &X[i].r, X[i].r.is_an_input_reaction = true;
    if (X[i].nw_absent) port_absent_reaction[num_port_absent_reactions++] = &X[i].r;
  }
  fed_preamble(&envs[0]);
#endif
}

/* ----------------------------------------------------------------- parsing the program text */
static int kch(char c) { const char* p = strchr(KCH, c); return p ? (int)(p - KCH) : -1; }
static int opk(const char* s) {
  static const char* names[] = {"sched", "set", "fwd", "work", "spin", "stop", "mode", "wdstart", "wdstop", "wcopy", "sv", "async", "chkdl", "schedfwd", "miter", "exit", "sendfed", "trc", "sendabs", "recv", "clk"};
  for (unsigned i = 0; i < sizeof names / sizeof *names; i++)
    if (strcmp(s, names[i]) == 0) return (int)i;
  fprintf(stderr, "bad op %s\n", s);
  abort();
}
static void parse(char* text) {
  char* save = NULL;
  for (int i = 0; i < MAXR; i++) r_pmode[i] = -1, r_init[i] = -1;
  for (char* l = strtok_r(text, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
    char w[32], c, s[32];
    long a[12];
    memset(a, 0, sizeof a);
    if (sscanf(l, "%31s", w) != 1) continue;
    char* rest = l + strlen(w);
    if (!strcmp(w, "cfg")) {
      char k[32];
      long v;
      if (sscanf(rest, "%31s %ld", k, &v) != 2) continue;
      if (!strcmp(k, "workers")) cfg_workers = v;
      if (!strcmp(k, "timeout")) cfg_timeout = v;
      if (!strcmp(k, "fast")) cfg_fast = v;
      if (!strcmp(k, "keepalive")) cfg_keepalive = v;
      if (!strcmp(k, "svreset")) cfg_svreset = v;
      if (!strcmp(k, "envs")) n_env = (int)v;
#ifdef FEDERATED
      if (!strcmp(k, "fedid")) prog_fed_id = (int)v;
      if (!strcmp(k, "physmin")) cfg_phys_min = v;
      if (!strcmp(k, "p2pin")) p2p_in = (int)v;
      if (!strcmp(k, "p2pout")) p2p_out[p2p_out_n++] = (int)v;
      if (!strcmp(k, "rtiport")) cfg_rtiport = v;
      if (!strcmp(k, "sta")) cfg_sta = v;
#endif
    } else if (!strcmp(w, "R")) { // R id env nmodes initmode parentmode
      sscanf(rest, "%ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4);
      r_env[a[0]] = (int)a[1]; r_nmodes[a[0]] = (int)a[2]; r_init[a[0]] = (int)a[3]; r_pmode[a[0]] = (int)a[4];
      if (a[0] >= n_r) n_r = (int)a[0] + 1;
    } else if (!strcmp(w, "M")) { // M id reactor
      sscanf(rest, "%ld %ld", a, a + 1);
      m_reactor[a[0]] = (int)a[1];
      if (a[0] >= n_m) n_m = (int)a[0] + 1;
    } else if (!strcmp(w, "T")) { // T id reactor offset period mode
      sscanf(rest, "%ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4);
      TM[a[0]].reactor = (int)a[1]; TM[a[0]].offset = a[2]; TM[a[0]].period = a[3]; TM[a[0]].mode = (int)a[4];
      if (a[0] >= n_t) n_t = (int)a[0] + 1;
    } else if (!strcmp(w, "A")) { // A id reactor min spacing policy physical kind mode
      sscanf(rest, "%ld %ld %ld %ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7);
      ac_t* x = &AC[a[0]];
      x->reactor = (int)a[1]; x->min = a[2]; x->spacing = a[3]; x->policy = (int)a[4]; x->physical = (int)a[5]; x->kind = (int)a[6]; x->mode = (int)a[7];
      if (a[0] >= n_a) n_a = (int)a[0] + 1;
    } else if (!strcmp(w, "P")) { // P id reactor kind group chan
      sscanf(rest, "%ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4);
      po_t* p = &PO[a[0]];
      p->reactor = (int)a[1]; p->kind = (int)a[2]; p->group = (int)a[3]; p->chan = (int)a[4];
      if (p->group >= 0) { grp_port[p->group][p->chan] = (int)a[0]; if (p->chan >= grp_n[p->group]) grp_n[p->group] = p->chan + 1; }
      if (a[0] >= n_p) n_p = (int)a[0] + 1;
    } else if (!strcmp(w, "G")) { // G group sparse_capacity(-1: none)
      sscanf(rest, "%ld %ld", a, a + 1);
      grp_sparse[a[0]] = (int)a[1];
    } else if (!strcmp(w, "X")) { // X id reactor number level deadline infdeadline mode last_enabling
      sscanf(rest, "%ld %ld %ld %ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7);
      rx_t* x = &X[a[0]];
      x->id = (int)a[0]; x->reactor = (int)a[1]; x->number = (int)a[2]; x->level = (int)a[3]; x->deadline = a[4]; x->inf_deadline = a[5];
      x->mode = (int)a[6]; x->last_enabling = (int)a[7];
      if (a[0] >= n_x) n_x = (int)a[0] + 1;
    } else if (!strcmp(w, "TR") || !strcmp(w, "SRC")) {
      sscanf(rest, "%ld %c %ld", a, &c, a + 1);
      rx_t* x = &X[a[0]];
      if (w[0] == 'T') { x->tr_kind[x->ntr] = kch(c); x->tr_id[x->ntr++] = (int)a[1]; }
      else { x->src_kind[x->nsrc] = kch(c); x->src_id[x->nsrc++] = (int)a[1]; }
    } else if (!strcmp(w, "STP")) { // the reaction has a handler for late messages
      sscanf(rest, "%ld", a);
      X[a[0]].stp = 1;
    } else if (!strcmp(w, "EF")) {
      sscanf(rest, "%ld %ld", a, a + 1);
      X[a[0]].eff[X[a[0]].neff++] = (int)a[1];
    } else if (!strcmp(w, "O") || !strcmp(w, "H") || !strcmp(w, "WO")) { // O x lo hi mod rem op a0 a1 a2 a3
      sscanf(rest, "%ld %ld %ld %ld %ld %31s %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4, s, a + 5, a + 6, a + 7, a + 8);
      op_t o = {.lo = (int)a[1], .hi = (int)a[2], .mod = (int)a[3], .rem = (int)a[4], .kind = opk(s), .a = {a[5], a[6], a[7], a[8]}};
      if (w[0] == 'O') X[a[0]].op[X[a[0]].nops++] = o;
      else if (w[0] == 'H') X[a[0]].hop[X[a[0]].h_nops++] = o;
      else WD[a[0]].op[WD[a[0]].nops++] = o;
    } else if (!strcmp(w, "W")) { // W id reactor min mode
      sscanf(rest, "%ld %ld %ld %ld", a, a + 1, a + 2, a + 3);
      WD[a[0]].reactor = (int)a[1]; WD[a[0]].min = a[2]; WD[a[0]].mode = (int)a[3];
      if (a[0] >= n_w) n_w = (int)a[0] + 1;
    } else if (!strcmp(w, "ASY")) { // ASY group at what action extra
      sscanf(rest, "%ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4);
      ASY[n_asy++] = (asy_t){.group = (int)a[0], .at = a[1], .what = (int)a[2], .action = (int)a[3], .extra = a[4]};
    }
#ifdef FEDERATED
    else if (!strcmp(w, "UP")) { sscanf(rest, "%ld %ld", a, a + 1); up_id[n_up] = (int)a[0]; up_delay[n_up++] = a[1]; }
    else if (!strcmp(w, "DOWN")) { sscanf(rest, "%ld", a); down_id[n_down++] = (int)a[0]; }
    else if (!strcmp(w, "NIN")) { // NIN portid action delay(-1 none) srcfed zdc
      sscanf(rest, "%ld %ld %ld %ld %ld", a, a + 1, a + 2, a + 3, a + 4);
      _lf_action_table[a[0]] = &AC[a[1]].a.base;
      _lf_action_delay_table[a[0]] = a[2] < 0 ? NEVER : a[2];
      AC[a[1]].fed_src = (int)a[3];
      AC[a[1]].net = 1;
      if ((size_t)a[0] >= _lf_action_table_size) _lf_action_table_size = (size_t)a[0] + 1;
      if (a[4]) _lf_zero_delay_cycle_action_table[_lf_zero_delay_cycle_action_table_size++] = &AC[a[1]].a.base;
    } else if (!strcmp(w, "NX")) { // NX reaction role(1 input, 2 absent)
      sscanf(rest, "%ld %ld", a, a + 1);
      if (a[1] == 1) X[a[0]].nw_input = 1;
      else X[a[0]].nw_absent = 1;
    }
#ifdef FEDERATED_DECENTRALIZED
    else if (!strcmp(w, "STAA")) { // STAA index value action...
      sscanf(rest, "%ld %ld %ld", a, a + 1, a + 2);
      staa_t* st = &staa_s[a[0]];
      staa_lst[a[0]] = st;
      st->STAA = (size_t)a[1];
      st->actions = staa_actions[a[0]];
      st->actions[st->num_actions++] = &AC[a[2]].a.base;
      if ((size_t)a[0] >= staa_lst_size) staa_lst_size = (size_t)a[0] + 1;
    }
#endif
#endif
  }
}

int prog_main(const char* text) {
  for (int g = 0; g < MAXGRP; g++) grp_sparse[g] = -1;
  char* t = strdup(text);
  parse(t);
  const char* argv[16];
  int argc = 0;
  char wk[16], to[32], *u = "nsec";
  argv[argc++] = "prog";
#if !defined(LF_SINGLE_THREADED)
  snprintf(wk, sizeof wk, "%ld", cfg_workers);
  argv[argc++] = "-w";
  argv[argc++] = wk;
#else
  (void)wk;
#endif
  if (cfg_timeout >= 0) {
    snprintf(to, sizeof to, "%ld", cfg_timeout);
    argv[argc++] = "-o";
    argv[argc++] = to;
    argv[argc++] = u;
  }
  if (cfg_fast) { argv[argc++] = "-f"; argv[argc++] = "true"; }
  if (cfg_keepalive) { argv[argc++] = "-k"; argv[argc++] = "true"; }
  sim_emit("{\"e\":\"main\",\"n\":%d,\"start\":%ld}", mynode(), (long)sim_now());
  extern int lf_reactor_c_main(int argc, const char* argv[]);
  int rc = lf_reactor_c_main(argc, argv);
  sim_emit("{\"e\":\"ret\",\"n\":%d,\"rc\":%d,\"ph\":%ld}", mynode(), rc, ph());
  return rc;
}
