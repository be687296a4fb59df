#include "cfgs.h"
#include "mc.h"
int main() {
 int k, q;
 static xh_out o, op, om; xh_in in, i2;
 for (k = 0; k < 10; ++k) {
  xh_cfg c = {"k", KD|LV|SO, S(SINGLE)|S(EIG_BVP), 5,3,1,1,1,1,8,{k},2,2,1};
  int s; 
  for (s=0;s<2;++s) { int sv = s ? S(EIG_BVP):S(SINGLE);
  for (q = -1; q < kernel_n_params(k); ++q) {
   double h; int i; double m=0, e=0;
   xh_default_in(&c,&in);
   in.ltau_l[0][0]=in.omega_l[0][0]=0; memset(in.coef_l,0,sizeof in.coef_l); in.ampfac_l[0][0]= q<0; if(q>=0) in.params_l[0][0][q]=1;
   xh_fresh_run(&c,&in,sv,1,0,&o);
   h = 1e-5; i2=in; if(q<0) i2.ampfac[0]+=h; else i2.params[0][q]+=h; xh_fresh_run(&c,&i2,sv,1,0,&op);
   i2=in; if(q<0) i2.ampfac[0]-=h; else i2.params[0][q]-=h; xh_fresh_run(&c,&i2,sv,1,0,&om);
   for (i = 0; i < 8; ++i) { double d=(op.v[i]-om.v[i])/(2*h); if (fabs(d)>m) m=fabs(d); if (!(fabs(d-o.v[xh_i_Il(&c,0,0,0,0,0,0)+i])<=e)) e=fabs(d-o.v[xh_i_Il(&c,0,0,0,0,0,0)+i]); }
   printf("kernel %d solver %d param %d rc %d: max %g err %g\n", k, s, q, o.rc, m, e);
  } } }
 return 0;
}
