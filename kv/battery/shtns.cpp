// naive spherical-harmonic transforms behind the SHTns interface; see inc/shtns.h
#include "shtns.h"
#include <vector>
#include <set>
#include <mutex>
#include <cstdio>
#include <cstdlib>
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
long kv_cfg_live = 0, kv_cfg_bad = 0;
namespace {
struct Impl { std::vector<double> ct, st, w, P, cs, sn; int layout; bool grid; };
std::set<shtns_cfg> live;
std::mutex mu;
void check(shtns_cfg s, const char *who, bool need_grid = true)
{
   std::lock_guard<std::mutex> g(mu);
   if (!live.count(s)) { std::fprintf(stderr, "KVBAD %s on a configuration that is not alive\n", who); std::fflush(stderr); std::abort(); }
   if (need_grid && !((Impl*)s->impl)->grid) { std::fprintf(stderr, "KVBAD %s without a grid\n", who); std::fflush(stderr); std::abort(); }
}
void kill(shtns_cfg s) { delete (Impl*)s->impl; delete s; kv_cfg_live--; }
inline size_t at(shtns_cfg s, int it, int ip) { return ((Impl*)s->impl)->layout == 512 ? (size_t)it*s->nphi + ip : (size_t)ip*s->nlat + it; }
inline const double *leg(shtns_cfg s, int l, int m) { return &((Impl*)s->impl)->P[(size_t)LM(s,l,m)*s->nlat]; }
}
extern "C" {
void shtns_verbose(int) {}
int shtns_use_threads(int n) { return n > 0 ? n : 1; }
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm)
{
   if (lmax < 1 || mmax < 0 || mmax*mres > lmax || mres < 1 || norm != sht_orthonormal) { std::fprintf(stderr, "KVBAD shtns_create arguments\n"); std::abort(); }
   shtns_cfg s = new shtns_info();
   s->lmax = lmax; s->mmax = mmax; s->mres = mres; s->nlm = (unsigned)((mmax+1)*(lmax+1) - (mmax*(mmax+1))/2);
   Impl *q = new Impl(); q->grid = false; s->impl = q;
   std::lock_guard<std::mutex> g(mu);
   live.insert(s); kv_cfg_live++;
   return s;
}
int shtns_set_grid(shtns_cfg s, enum shtns_type flags, double, int nlat, int nphi)
{
   check(s, "shtns_set_grid", false);
   Impl *q = (Impl*)s->impl;
   if (nlat <= s->lmax || nphi <= 2*s->mmax) { std::fprintf(stderr, "KVBAD shtns_set_grid: unresolved grid\n"); std::abort(); }
   q->layout = (int(flags) & 512) ? 512 : 256;
   s->nlat = nlat; s->nphi = nphi; s->nspat = (unsigned)(nlat*nphi); s->nlat_2 = (nlat+1)/2;
   q->ct.assign(nlat,0); q->st.assign(nlat,0); q->w.assign(nlat,0);
   for (int i=0; i<nlat; i++) {
      long double x = cosl(M_PI*(i+0.75L)/(nlat+0.5L)), dp = 1;
      for (int k=0; k<60; k++) {
         long double p0=1, p1=x;
         for (int n=2; n<=nlat; n++) { long double p2=((2*n-1)*x*p1-(n-1)*p0)/n; p0=p1; p1=p2; }
         if (nlat==1) { p0=1; p1=x; }
         dp = nlat*(x*p1-p0)/(x*x-1);
         long double d = p1/dp; x -= d;
         if (fabsl(d) < 1e-19L) break;
      }
      q->ct[i]=x; q->st[i]=sqrtl(1-x*x); q->w[i]=2/((1-x*x)*dp*dp);
   }
   if (nlat%2) q->ct[nlat/2]=0, q->st[nlat/2]=1;
   q->P.assign((size_t)s->nlm*nlat, 0);
   for (int i=0; i<nlat; i++) {
      long double x=q->ct[i], sn=q->st[i], pmm=1/sqrtl(4*M_PI);
      for (int m=0; m<=s->mmax; m++) {
         if (m) pmm *= -sn*sqrtl((2*m+1)/(2.0L*m));
         long double a=0, b=pmm;
         q->P[(size_t)LM(s,m,m)*nlat+i]=b;
         for (int l=m+1; l<=s->lmax; l++) {
            long double c = l==m+1 ? x*sqrtl(2*m+3.0L)*b
               : sqrtl((4.0L*l*l-1)/((long double)l*l-m*m))*(x*b - sqrtl((((long double)l-1)*(l-1)-m*m)/(4.0L*(l-1)*(l-1)-1))*a);
            a=b; b=c;
            q->P[(size_t)LM(s,l,m)*nlat+i]=b;
         }
      }
   }
   q->cs.assign(nphi,0); q->sn.assign(nphi,0);
   for (int j=0; j<nphi; j++) { q->cs[j]=cosl(2*M_PI*j/nphi); q->sn[j]=sinl(2*M_PI*j/nphi); }
   s->ct=q->ct.data(); s->st=q->st.data(); q->grid=true;
   return (int)s->nspat;
}
void shtns_destroy(shtns_cfg s)
{
   check(s, "shtns_destroy", false);
   std::lock_guard<std::mutex> g(mu);
   live.erase(s); kill(s);
}
void shtns_unset_grid(shtns_cfg s) { check(s, "shtns_unset_grid", false); ((Impl*)s->impl)->grid=false; s->ct=s->st=nullptr; s->nspat=0; }
void shtns_reset(void)
{
   std::lock_guard<std::mutex> g(mu);
   std::set<shtns_cfg> t; t.swap(live);
   for (std::set<shtns_cfg>::iterator i=t.begin(); i!=t.end(); ++i) kill(*i);
}
void spat_to_SH(shtns_cfg s, double *V, cplx *Q)
{
   check(s, "spat_to_SH"); Impl *q=(Impl*)s->impl; const int L=s->lmax, M=s->mmax, nt=s->nlat, np=s->nphi;
   std::vector<cplx> F(nt);
   for (int m=0; m<=M; m++) {
      for (int i=0; i<nt; i++) { cplx a=0; for (int j=0; j<np; j++) { int k=(int)(((long)j*m)%np); a += V[at(s,i,j)]*cplx(q->cs[k],-q->sn[k]); } F[i]=a*(2*M_PI/np)*q->w[i]; }
      for (int l=m; l<=L; l++) { const double *P=leg(s,l,m); cplx a=0; for (int i=0; i<nt; i++) a += F[i]*P[i]; Q[LM(s,l,m)]=a; }
   }
}
void SH_to_spat(shtns_cfg s, cplx *Q, double *V)
{
   check(s, "SH_to_spat"); Impl *q=(Impl*)s->impl; const int L=s->lmax, M=s->mmax, nt=s->nlat, np=s->nphi;
   std::vector<cplx> F(M+1);
   for (int i=0; i<nt; i++) {
      for (int m=0; m<=M; m++) { cplx a=0; for (int l=m; l<=L; l++) a += Q[LM(s,l,m)]*leg(s,l,m)[i]; F[m]=a; }
      for (int j=0; j<np; j++) { double v=F[0].real(); for (int m=1; m<=M; m++) { int k=(int)(((long)j*m)%np); v += 2*(F[m].real()*q->cs[k]-F[m].imag()*q->sn[k]); } V[at(s,i,j)]=v; }
   }
}
void spat_cplx_to_SH(shtns_cfg s, cplx *z, cplx *A)
{
   check(s, "spat_cplx_to_SH"); Impl *q=(Impl*)s->impl; const int L=s->lmax, M=s->mmax, nt=s->nlat, np=s->nphi;
   for (int k=0; k<(L+1)*(L+1); k++) A[k]=0;
   for (int m=-M; m<=M; m++) {
      const int am = m<0?-m:m; const double sg = (m<0 && am%2)?-1:1;
      std::vector<cplx> F(nt);
      for (int i=0; i<nt; i++) { cplx a=0; for (int j=0; j<np; j++) { int k=(int)(((long)j*am)%np); a += z[at(s,i,j)]*cplx(q->cs[k], m<0?q->sn[k]:-q->sn[k]); } F[i]=a*(2*M_PI/np)*q->w[i]*sg; }
      for (int l=am; l<=L; l++) { const double *P=leg(s,l,am); cplx a=0; for (int i=0; i<nt; i++) a += F[i]*P[i]; A[l*(l+1)+m]=a; }
   }
}
void SH_to_spat_cplx(shtns_cfg s, cplx *A, cplx *z)
{
   check(s, "SH_to_spat_cplx"); Impl *q=(Impl*)s->impl; const int L=s->lmax, M=s->mmax, nt=s->nlat, np=s->nphi;
   for (int i=0; i<nt; i++) for (int j=0; j<np; j++) z[at(s,i,j)]=0;
   for (int m=-M; m<=M; m++) {
      const int am = m<0?-m:m; const double sg = (m<0 && am%2)?-1:1;
      for (int i=0; i<nt; i++) {
         cplx a=0; for (int l=am; l<=L; l++) a += A[l*(l+1)+m]*leg(s,l,am)[i];
         a *= sg;
         for (int j=0; j<np; j++) { int k=(int)(((long)j*am)%np); z[at(s,i,j)] += a*cplx(q->cs[k], m<0?-q->sn[k]:q->sn[k]); }
      }
   }
}
}
