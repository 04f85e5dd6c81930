// Replay driver: executes single public operations of /repo's real code on inputs received over a pipe.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <complex>
#include <unistd.h>
#include <fftw3.h>
#ifdef _OPENMP
#include <omp.h>
#endif
#if DRV_RADIAL
#include "cheb.hpp"
#include "finite_diff.hpp"
#endif
#if DRV_FIELD
#include "field.hpp"
#endif
#if DRV_SPHERE
#include "sphere.hpp"
#endif
#if DRV_GRID
#include "grid.hpp"
#endif
#if DRV_PARAMS
#include "params.hpp"
#endif
#if DRV_EOM
#include "scalar_eom.hpp"
#endif
#if DRV_ID
#include "initial_data.hpp"
#endif
#if DRV_IO
#include "io.hpp"
#endif
typedef std::vector<double> V;
typedef std::complex<double> C;
typedef std::vector<C> VC;
#include <atomic>
static std::atomic<long> a_buf(0), a_plan(0);
extern "C" {
void *__real_fftw_malloc(size_t n); void __real_fftw_free(void *p);
void *__wrap_fftw_malloc(size_t n) { a_buf++; return __real_fftw_malloc(n); }
void __wrap_fftw_free(void *p) { if (p) a_buf--; __real_fftw_free(p); }
double *__real_fftw_alloc_real(size_t n); fftw_complex *__real_fftw_alloc_complex(size_t n);
double *__wrap_fftw_alloc_real(size_t n) { a_buf++; return __real_fftw_alloc_real(n); }
fftw_complex *__wrap_fftw_alloc_complex(size_t n) { a_buf++; return __real_fftw_alloc_complex(n); }
fftw_plan __real_fftw_plan_r2r_1d(int n, double *a, double *b, fftw_r2r_kind k, unsigned f);
fftw_plan __wrap_fftw_plan_r2r_1d(int n, double *a, double *b, fftw_r2r_kind k, unsigned f) { a_plan++; return __real_fftw_plan_r2r_1d(n,a,b,k,f); }
void __real_fftw_destroy_plan(fftw_plan p);
void __wrap_fftw_destroy_plan(fftw_plan p) { if (p) a_plan--; __real_fftw_destroy_plan(p); }
}
struct Req { std::string op; std::vector<long> i; V d; std::vector<std::string> s; std::vector<V> a; };
static FILE *OUT;
static void reply(const std::vector<V> &o, const std::string &t="")
{
   fprintf(OUT, "ok %zu", o.size());
   for (auto &v: o) fprintf(OUT, " %zu", v.size());
   fprintf(OUT, " %zu\n", t.size());
   for (auto &v: o) if (!v.empty()) fwrite(v.data(), 8, v.size(), OUT);
   fwrite(t.data(), 1, t.size(), OUT);
   fflush(OUT);
}
static bool get(Req &q)
{
   char op[64]; size_t ni,nd,ns,na;
   if (scanf("%63s %zu %zu %zu %zu", op,&ni,&nd,&ns,&na)!=5) return false;
   q=Req(); q.op=op;
   q.i.resize(ni); for (auto &x: q.i) if (scanf("%ld",&x)!=1) return false;
   std::vector<size_t> ls(ns), la(na);
   for (auto &x: ls) if (scanf("%zu",&x)!=1) return false;
   for (auto &x: la) if (scanf("%zu",&x)!=1) return false;
   if (getchar()!='\n') return false;
   q.d.resize(nd); if (nd && fread(q.d.data(),8,nd,stdin)!=nd) return false;
   for (auto l: ls) { std::string t(l,' '); if (l && fread(&t[0],1,l,stdin)!=l) return false; q.s.push_back(t); }
   for (auto l: la) { V v(l); if (l && fread(v.data(),8,l,stdin)!=l) return false; q.a.push_back(v); }
   return true;
}
#if DRV_SPHERE || DRV_GRID
static VC toc(const V &v) { VC o(v.size()/2); for (size_t i=0;i<o.size();i++) o[i]=C(v[2*i],v[2*i+1]); return o; }
static V fromc(const VC &v) { V o(2*v.size()); for (size_t i=0;i<v.size();i++) { o[2*i]=v[i].real(); o[2*i+1]=v[i].imag(); } return o; }
#endif
#if DRV_RADIAL
static std::map<long,FD*> fds; static std::map<long,Cheb*> chs;
template<class T> static bool radial(std::map<long,T*> &m, const std::string &op, Req &q)
{
   if (op=="new") { m[q.i[0]] = new T((size_t)q.i[1], q.d[0], q.d[1]); reply({}); return true; }
   T *o=m[q.i[0]];
   if (op=="del") { delete o; m.erase(q.i[0]); reply({}); return true; }
   if (op=="pt") { reply({V{o->pt(size_t(q.i[1]))}}); return true; }
   if (op=="info") { V p; for (size_t i=0;i<o->n();i++) p.push_back(o->pt(i)); reply({V{double(o->n()),o->lower(),o->upper()}, p}); return true; }
   if (op=="der") { o->der(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="filter") { o->filter(q.a[0]); reply(q.a); return true; }
   return false;
}
static bool r_fd(const std::string &op, Req &q) { if (op=="der2") { fds[q.i[0]]->der2(q.a[0],q.a[1]); reply(q.a); return true; } return radial(fds,op,q); }
static bool r_ch(const std::string &op, Req &q)
{
   if (op=="toch") { chs[q.i[0]]->to_ch(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="topo") { chs[q.i[0]]->to_po(q.a[0],q.a[1]); reply(q.a); return true; }
   return radial(chs,op,q);
}
#endif
#if DRV_SPHERE
static std::map<long,Sphere*> sps;
static bool r_sp(const std::string &op, Req &q)
{
   if (op=="new") { sps[q.i[0]] = new Sphere(q.i[1],q.i[2],q.i[3],q.i[4]); reply({}); return true; }
   Sphere *o=sps[q.i[0]];
   if (op=="del") { delete o; sps.erase(q.i[0]); reply({}); return true; }
   if (op=="info") {
      V t,p,ix; for (size_t i=0;i<o->nlat();i++) t.push_back(o->theta(i)); for (size_t j=0;j<o->nphi();j++) p.push_back(o->phi(j));
      for (size_t i=0;i<o->nlat();i++) for (size_t j=0;j<o->nphi();j++) ix.push_back(o->indx(i,j));
      reply({V{double(o->nlat()),double(o->nphi()),double(o->nSph()),double(o->nYlm())},t,p,ix}); return true; }
   if (op=="to_Sph") { VC a=toc(q.a[0]); o->to_Sph(a,q.a[1]); reply({fromc(a),q.a[1]}); return true; }
   if (op=="to_Ylm") { VC b=toc(q.a[1]); o->to_Ylm(q.a[0],b); reply({q.a[0],fromc(b)}); return true; }
   if (op=="to_Sph_c") { VC a=toc(q.a[0]),b=toc(q.a[1]); o->to_Sph(a,b); reply({fromc(a),fromc(b)}); return true; }
   if (op=="to_Ylm_c") { VC a=toc(q.a[0]),b=toc(q.a[1]); o->to_Ylm(a,b); reply({fromc(a),fromc(b)}); return true; }
   if (op=="lap") { o->laplace_beltrami(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="dphi") { o->partial_phi(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="sphereX") { o->sphereX(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="power") { o->power_spectrum(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="filter") { o->filter(q.a[0]); reply(q.a); return true; }
   if (op=="raise") { VC b=toc(q.a[1]); o->raise(q.a[0],b); reply({q.a[0],fromc(b)}); return true; }
   if (op=="lower") { VC b=toc(q.a[1]); o->lower(q.a[0],b); reply({q.a[0],fromc(b)}); return true; }
   if (op=="ylm") { reply({o->compute_ylm(q.i[1],q.i[2])}); return true; }
   return false;
}
#endif
#if DRV_GRID
static std::map<long,Grid*> grs;
static bool r_gr(const std::string &op, Req &q)
{
   if (op=="new") { grs[q.i[0]] = new Grid(q.d[0],q.d[1],q.d[2],q.i[1],q.i[2],q.i[3],q.i[4],q.i[5]); reply({}); return true; }
   Grid *o=grs[q.i[0]];
   const size_t nx=o->nx(), nl=o->nl(), nt=o->nlat(), np=o->nphi();
   if (op=="del") { delete o; grs.erase(q.i[0]); reply({}); return true; }
   if (op=="info") {
      V i3,c3,x3,i2,c2,l,rl,nlv,rr,f3,fx,f2,fl;
      for (size_t a=0;a<nx;a++) for (size_t b=0;b<nt;b++) for (size_t c=0;c<np;c++) {
         i3.push_back(o->indx_R_th_ph(a,b,c));
         for (double z: o->R_th_ph(a,b,c)) c3.push_back(z);
         for (double z: o->x_y_z(a,b,c)) x3.push_back(z); }
      for (size_t b=0;b<nt;b++) for (size_t c=0;c<np;c++) { i2.push_back(o->indx_th_ph(b,c)); for (double z: o->th_ph(b,c)) c2.push_back(z); }
      for (size_t a=0;a<nx;a++) for (size_t b=0;b<nl;b++) { l.push_back(o->indx_r_l(a,b)); for (double z: o->R_l(a,b)) rl.push_back(z); }
      for (size_t i=0;i<nx*nt*np;i++) { for (double z: o->R_th_ph(i)) f3.push_back(z); for (double z: o->x_y_z(i)) fx.push_back(z); }
      for (size_t i=0;i<nt*np;i++) for (double z: o->th_ph(i)) f2.push_back(z);
      for (size_t i=0;i<nx*nl;i++) for (double z: o->R_l(i)) fl.push_back(z);
#if USE_CHEB
      for (size_t a=0;a<nx;a++) for (size_t b=0;b<nl;b++) for (double z: o->n_l(a,b)) nlv.push_back(z);
#endif
      reply({i3,c3,x3,i2,c2,l,rl,nlv,f3,fx,f2,fl,V{o->cl(),o->Rmin(),o->Rmax(),double(nx),double(nl),double(o->nm()),double(nt),double(np)}}); return true; }
   if (op=="R2r") { V r; for (double x: q.a[0]) r.push_back(o->R_to_r(x)); reply({r}); return true; }
   if (op=="ylm") { reply({o->compute_ylm(q.i[1],q.i[2])}); return true; }
   if (op=="dphi") { o->set_partial_phi(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="lap") { o->set_spherical_lap(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="sphereX") { o->set_sphereX(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="dR") { o->set_partial_R(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="dr") { o->set_partial_r(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="drr") { o->set_partial2_r(q.a[0],q.a[1]); reply(q.a); return true; }
   if (op=="power") { o->set_angular_power_spectrum(q.a[0],q.a[1]); reply(q.a); return true; }
#if USE_CHEB
   if (op=="nl") { o->set_n_l_coef(q.a[0],q.a[1]); reply(q.a); return true; }
#endif
   if (op=="filter") { o->filter(q.a[0]); reply(q.a); return true; }
   if (op=="norm") { double r=o->norm_indep_res(q.d[0],q.a[0],q.a[1],q.a[2]); reply({V{r},q.a[0],q.a[1],q.a[2]}); return true; }
   if (op=="tv") { double r=o->total_variation(q.a[0]); reply({V{r},q.a[0]}); return true; }
#define ROW2(nm) if (op=="get_" #nm) { o->get_row_##nm(q.i[1],q.i[2],q.a[0],q.a[1]); reply(q.a); return true; } if (op=="set_" #nm) { o->set_row_##nm(q.i[1],q.i[2],q.a[0],q.a[1]); reply(q.a); return true; }
#define ROW1(nm) if (op=="get_" #nm) { o->get_row_##nm(q.i[1],q.a[0],q.a[1]); reply(q.a); return true; } if (op=="set_" #nm) { o->set_row_##nm(q.i[1],q.a[0],q.a[1]); reply(q.a); return true; }
   ROW2(R) ROW2(th) ROW2(ph) ROW1(n) ROW1(R_th) ROW1(R_ph) ROW1(th_ph)
   if (op=="set_l") { o->set_row_l(q.i[1],q.a[0],q.a[1]); reply(q.a); return true; }
   return false;
}
#endif
#if DRV_FIELD
static std::map<long,Field*> fis;
static bool r_fi(const std::string &op, Req &q)
{
   if (op=="new") { fis[q.i[0]] = new Field(q.s[0],(size_t)q.i[1],q.d[0]); reply({}); return true; }
   Field *o=fis[q.i[0]];
   if (op=="del") { delete o; fis.erase(q.i[0]); reply({}); return true; }
   if (op=="get") { reply({o->n,o->l,o->np1,o->k,V{double(o->size)}}, o->name); return true; }
   if (op=="set") { o->n=q.a[0]; o->l=q.a[1]; o->np1=q.a[2]; o->k=q.a[3]; reply({}); return true; }
   if (op=="shift") { o->shift(); reply({}); return true; }
   return false;
}
#endif
#if DRV_PARAMS
static std::map<long,Params*> pas;
static bool r_pa(const std::string &op, Req &q)
{
   if (op=="new") { pas[q.i[0]] = new Params(q.s[0]); reply({}); return true; }
   Params *o=pas[q.i[0]];
   if (op=="del") { delete o; pas.erase(q.i[0]); reply({}); return true; }
   if (op=="info") {
      reply({V{double(o->nt()),double(o->nx()),double(o->nl()),double(o->nm()),double(o->nlat()),double(o->nphi()),double(o->t_step_save()),
         o->dt(),o->cl(),o->Rmax(),o->Rmin(),o->bh_mass(),o->bh_spin(),o->km1(),o->k0(),o->k1(),o->k2(),o->V2(),o->V3(),o->V4(),
         o->amp(),o->rl(),o->ru(),double(o->l_ang()),double(o->m_ang())}}, o->id()+"\n"+o->initial_data_direction()); return true; }
   if (op=="arr") { V d; std::vector<size_t> s; if (q.i[1]) { o->_read_array(q.s[0],q.s[1],d); } else { o->_read_array(q.s[0],q.s[1],s); for (size_t x: s) d.push_back(double(x)); } reply({d}); return true; }
   return false;
}
#endif
#if DRV_EOM
static std::map<long,Scalar_eom*> eos;
static bool r_eo(const std::string &op, Req &q)
{
   if (op=="new") { eos[q.i[0]] = new Scalar_eom(*grs[q.i[1]],*pas[q.i[2]]); reply({}); return true; }
   Scalar_eom *o=eos[q.i[0]];
   if (op=="del") { delete o; eos.erase(q.i[0]); reply({}); return true; }
   if (op=="k") { o->set_k(*grs[q.i[1]],q.a[0],q.a[1],q.a[2],q.a[3]); reply(q.a); return true; }
   if (op=="rho") { o->set_rho(*grs[q.i[1]],q.a[0],q.a[1],q.a[2]); reply(q.a); return true; }
   if (op=="step") { o->time_step(*grs[q.i[1]],*fis[q.i[2]],*fis[q.i[3]]); reply({}); return true; }
   return false;
}
#endif
static bool misc(const std::string &op, Req &q)
{
   if (op=="counts") {
      double c=0;
#if DRV_SPHERE || DRV_GRID
      c=kv_cfg_live;
#endif
      reply({V{double(a_buf),double(a_plan),c}}); return true; }
   if (op=="threads") {
#ifdef _OPENMP
      omp_set_num_threads((int)q.i[0]);
#endif
      reply({}); return true; }
#if DRV_ID
   if (op=="pulse") { ID::compact_pulse(*pas[q.i[0]],*grs[q.i[1]],q.a[0],q.a[1]); reply(q.a); return true; }
#endif
#if DRV_IO
   if (op=="csv") { Csv::write(q.s[0],(size_t)q.i[0],q.a[0]); reply(q.a); return true; }
   if (op=="rpsl") { Csv::write_R_psl(*grs[q.i[0]],q.s[0],q.i[1]!=0,(int)q.i[2],q.a[0]); reply(q.a); return true; }
#if USE_CHEB
   if (op=="npsl") { Csv::write_n_psl(*grs[q.i[0]],q.s[0],q.i[1]!=0,(int)q.i[2],q.a[0]); reply(q.a); return true; }
#endif
   if (op=="xyz") { Csv::write_x_y_z(*grs[q.i[0]],q.s[0],q.i[1]!=0,(int)q.i[2],q.d[0],q.d[1],q.d[2],q.d[3],q.a[0]); reply(q.a); return true; }
#endif
   return false;
}
struct Null: std::streambuf { int overflow(int c) { return c; } };
int main(int argc, char **argv)
{
   OUT = fdopen(dup(1),"w");
   if (argc<2) { dup2(2,1); }
   Null nb; std::cout.rdbuf(&nb);
   Req q;
   while (get(q)) {
      const size_t k=q.op.find('.'); const std::string m=q.op.substr(0,k), op=q.op.substr(k+1);
      bool ok=false;
      if (m=="m") ok=misc(op,q);
#if DRV_RADIAL
      if (m=="fd") ok=r_fd(op,q);
      if (m=="ch") ok=r_ch(op,q);
#endif
#if DRV_SPHERE
      if (m=="sp") ok=r_sp(op,q);
#endif
#if DRV_GRID
      if (m=="gr") ok=r_gr(op,q);
#endif
#if DRV_FIELD
      if (m=="fi") ok=r_fi(op,q);
#endif
#if DRV_PARAMS
      if (m=="pa") ok=r_pa(op,q);
#endif
#if DRV_EOM
      if (m=="eo") ok=r_eo(op,q);
#endif
      if (!ok) { fprintf(OUT,"no 0 0\n"); fflush(OUT); }
   }
   fflush(OUT);
   return 0;
}
