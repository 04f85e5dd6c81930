// A small OpenMP (GOMP ABI) runtime on plain pthreads, compiled with ThreadSanitizer, so that the only happens-before edges the
// sanitizer sees are those the OpenMP constructs themselves create (fork, join, barrier, critical, work-sharing end).
#include <pthread.h>
#include <cstdlib>
#include <cstddef>
#include <vector>
#include <map>
#include <string>
typedef unsigned long long ull;
namespace {
struct WS { long next, end, incr, chunk; int count; long total; bool init; int left; };
struct Team {
   int n; pthread_mutex_t mu; pthread_cond_t cv; int arrived; long phase;
   std::vector<WS*> ws;            // work-sharing constructs in the order they are met
   bool single_taken(long k) { while ((long)singles.size()<=k) singles.push_back(0); bool t=singles[k]; singles[k]=1; return t; }
   std::vector<char> singles;
};
struct Self { Team *t; int id; long nws, nsingle; WS *cur; int level; };
thread_local Self me = {nullptr,0,0,0,nullptr,0};
int want = 0;
int deflt() { if (!want) { const char *e=getenv("KV_THREADS"); want = e?atoi(e):4; if (want<1) want=1; } return want; }
void barrier(Team *t)
{
   if (!t) return;
   pthread_mutex_lock(&t->mu);
   long p=t->phase;
   if (++t->arrived==t->n) { t->arrived=0; t->phase++; pthread_cond_broadcast(&t->cv); }
   else while (t->phase==p) pthread_cond_wait(&t->cv,&t->mu);
   pthread_mutex_unlock(&t->mu);
}
struct Arg { void (*fn)(void*); void *data; Team *t; int id, level; };
void *body(void *x) { Arg *a=(Arg*)x; Self old=me; me=Self{a->t,a->id,0,0,nullptr,a->level}; a->fn(a->data); me=old; return nullptr; }
WS *enter(long start, long end, long incr, long chunk, int count)
{
   static Team solo_dummy;
   Team *t=me.t;
   if (!t) { WS *w=new WS{start,end,incr,chunk?chunk:1,count,0,true,1}; me.cur=w; return w; }
   pthread_mutex_lock(&t->mu);
   long k=me.nws++;
   while ((long)t->ws.size()<=k) t->ws.push_back(new WS{0,0,1,1,0,0,false,0});
   WS *w=t->ws[k];
   if (!w->init) { w->next=start; w->end=end; w->incr=incr; w->chunk=chunk?chunk:1; w->count=count; w->total=0; w->init=true; }
   pthread_mutex_unlock(&t->mu);
   me.cur=w; return w;
}
// handing out work must not order the pieces of work: the counter is a relaxed atomic
bool take(WS *w, long *s, long *e)
{
   long step=w->chunk*w->incr;
   long a=__atomic_fetch_add(&w->next,step,__ATOMIC_RELAXED);
   if (w->incr>0 ? a>=w->end : a<=w->end) return false;
   long b=a+step; if (w->incr>0 ? b>w->end : b<w->end) b=w->end;
   *s=a; *e=b; return true;
}
unsigned section(WS *w) { long a=__atomic_fetch_add(&w->total,1L,__ATOMIC_RELAXED); return a<w->count ? (unsigned)(a+1) : 0; }
pthread_mutex_t crit=PTHREAD_MUTEX_INITIALIZER, atom=PTHREAD_MUTEX_INITIALIZER, names=PTHREAD_MUTEX_INITIALIZER;
void launch(void (*fn)(void*), void *data, unsigned nth, Team *t)
{
   std::vector<pthread_t> th(t->n); std::vector<Arg> a(t->n);
   for (int i=0;i<t->n;i++) a[i]=Arg{fn,data,t,i,me.level+1};
   for (int i=1;i<t->n;i++) if (pthread_create(&th[i],nullptr,body,&a[i])) abort();
   body(&a[0]);
   for (int i=1;i<t->n;i++) pthread_join(th[i],nullptr);
   for (size_t i=0;i<t->ws.size();i++) delete t->ws[i];
   pthread_mutex_destroy(&t->mu); pthread_cond_destroy(&t->cv); delete t; (void)nth;
}
Team *team(unsigned nth) { Team *t=new Team(); t->n = nth?(int)nth:(me.level>=2?1:deflt()); pthread_mutex_init(&t->mu,nullptr); pthread_cond_init(&t->cv,nullptr); t->arrived=0; t->phase=0; return t; }
WS *first(Team *t, long s, long e, long inc, long ch, int c) { WS *w=new WS{s,e,inc,ch?ch:1,c,0,true,0}; t->ws.push_back(w); return w; }
struct Pre { void (*fn)(void*); void *data; };
void enter_first(void *x) { Pre *p=(Pre*)x; me.nws=1; me.cur=me.t->ws[0]; p->fn(p->data); }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void *data, unsigned nth, unsigned) { launch(fn,data,nth,team(nth)); }
void GOMP_parallel_sections(void (*fn)(void*), void *data, unsigned nth, unsigned count, unsigned)
{ Team *t=team(nth); first(t,0,0,1,1,(int)count); Pre p={fn,data}; launch(enter_first,&p,nth,t); }
#define PLOOP(nm) void GOMP_parallel_loop_##nm(void (*fn)(void*), void *data, unsigned nth, long s, long e, long inc, long ch, unsigned) \
{ Team *t=team(nth); first(t,s,e,inc,ch,0); Pre p={fn,data}; launch(enter_first,&p,nth,t); } \
bool GOMP_loop_##nm##_start(long s, long e, long inc, long ch, long *a, long *b) { return take(enter(s,e,inc,ch,0),a,b); } \
bool GOMP_loop_##nm##_next(long *a, long *b) { return take(me.cur,a,b); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define RLOOP(nm) void GOMP_parallel_loop_##nm(void (*fn)(void*), void *data, unsigned nth, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_dynamic(fn,data,nth,s,e,inc,1,f); } \
bool GOMP_loop_##nm##_start(long s, long e, long inc, long *a, long *b) { return take(enter(s,e,inc,1,0),a,b); } \
bool GOMP_loop_##nm##_next(long *a, long *b) { return take(me.cur,a,b); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(me.t); }
void GOMP_loop_end_nowait(void) {}
#define ULOOP(nm) bool GOMP_loop_ull_##nm##_start(bool up, ull s, ull e, ull inc, ull ch, ull *a, ull *b) { (void)up; return take(enter((long)s,(long)e,(long)inc,(long)ch,0),(long*)a,(long*)b); } \
bool GOMP_loop_ull_##nm##_next(ull *a, ull *b) { return take(me.cur,(long*)a,(long*)b); }
ULOOP(dynamic) ULOOP(guided) ULOOP(static) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
bool GOMP_loop_ull_runtime_start(bool up, ull s, ull e, ull inc, ull *a, ull *b) { (void)up; return take(enter((long)s,(long)e,(long)inc,1,0),(long*)a,(long*)b); }
bool GOMP_loop_ull_runtime_next(ull *a, ull *b) { return take(me.cur,(long*)a,(long*)b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, ull s, ull e, ull inc, ull *a, ull *b) { return GOMP_loop_ull_runtime_start(up,s,e,inc,a,b); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(ull *a, ull *b) { return take(me.cur,(long*)a,(long*)b); }
unsigned GOMP_sections_start(unsigned count) { return section(enter(0,0,1,1,(int)count)); }
unsigned GOMP_sections_next(void) { return section(me.cur); }
void GOMP_sections_end(void) { barrier(me.t); }
void GOMP_sections_end_nowait(void) {}
void GOMP_barrier(void) { barrier(me.t); }
bool GOMP_single_start(void) { Team *t=me.t; if (!t) return true; pthread_mutex_lock(&t->mu); bool r=!t->single_taken(me.nsingle++); pthread_mutex_unlock(&t->mu); return r; }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(&names); if (!*p) { pthread_mutex_t *m=new pthread_mutex_t; pthread_mutex_init(m,nullptr); *p=m; } pthread_mutex_t *m=(pthread_mutex_t*)*p; pthread_mutex_unlock(&names); pthread_mutex_lock(m); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t*)*p); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void GOMP_task(void (*fn)(void*), void *data, void (*cpy)(void*,void*), long size, long align, bool, unsigned, void**, int, void*)
{ if (cpy) { std::vector<char> b(size+align); char *p=(char*)(((size_t)b.data()+align-1)/align*align); cpy(p,data); fn(p); } else fn(data); }
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return me.id; }
int omp_get_num_threads(void) { return me.t?me.t->n:1; }
int omp_get_max_threads(void) { return deflt(); }
void omp_set_num_threads(int n) { want=n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return me.t && me.t->n>1; }
int omp_get_level(void) { return me.level; }
int omp_get_active_level(void) { return me.level; }
int omp_get_max_active_levels(void) { return 2; }
void omp_set_max_active_levels(int) {}
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {} int omp_get_nested(void) { return 1; }
int omp_get_thread_limit(void) { return 64; }
double omp_get_wtime(void) { return 0; }
}
