/* One-off generator: dumps the LC3 standard tables of the pinned tree to JSON. The output is committed
 * (data/tables.json, spec/Tables.tla) and is never regenerated by a check. */
#include <lc3.h>
#include "tables.h"
#include <stdio.h>
#define A(n,fmt,e) do{ printf("["); for(int _i=0;_i<(n);_i++){ int i=_i; printf("%s" fmt,_i?",":"",e);} printf("]"); }while(0)
int main(void){
  printf("{\"ns2m5\":"); A(7,"%d",lc3_ns_2m5[i]); printf(",\"ne2m5\":"); A(7,"%d",lc3_ne_2m5[i]); printf(",\"ns4m\":"); A(7,"%d",lc3_ns_4m[i]);
  printf(",\"hrlim\":["); for(int d=0;d<4;d++){ printf("%s[",d?",":""); for(int s=0;s<2;s++) printf("%s[%d,%d]",s?",":"",lc3_frame_bytes_hr_lim[d][s][0],lc3_frame_bytes_hr_lim[d][s][1]); printf("]"); } printf("]");
  printf(",\"bands\":["); for(int d=0;d<4;d++){ printf("%s[",d?",":""); for(int s=0;s<7;s++){ printf("%s",s?",":""); if(!lc3_band_lim[d][s]) printf("[]"); else A(lc3_num_bands[d][s]+1,"%d",lc3_band_lim[d][s][i]); } printf("]"); } printf("]");
  printf(",\"lfcb\":["); for(int k=0;k<32;k++){ printf("%s",k?",":""); A(8,"%.9g",(double)lc3_sns_lfcb[k][i]); } printf("]");
  printf(",\"hfcb\":["); for(int k=0;k<32;k++){ printf("%s",k?",":""); A(8,"%.9g",(double)lc3_sns_hfcb[k][i]); } printf("]");
  printf(",\"vqg\":["); for(int k=0;k<4;k++){ printf("%s",k?",":""); A(lc3_sns_vq_gains[k].count,"%.9g",(double)lc3_sns_vq_gains[k].v[i]); } printf("]");
  printf(",\"mpvq\":["); for(int k=0;k<16;k++){ printf("%s",k?",":""); A(11,"%d",lc3_sns_mpvq_offsets[k][i]); } printf("]");
  printf(",\"tnsorder\":["); for(int k=0;k<2;k++){ printf("%s",k?",":""); A(17,"%d",lc3_tns_order_models[k].s[i].low); } printf("]");
  printf(",\"tnscoef\":["); for(int k=0;k<8;k++){ printf("%s",k?",":""); A(17,"%d",lc3_tns_coeffs_models[k].s[i].low); } printf("]");
  printf(",\"specmodel\":["); for(int k=0;k<64;k++){ printf("%s",k?",":""); A(17,"%d",lc3_spectrum_models[k].s[i].low); } printf("]");
  printf(",\"range_ok\":"); int ok=1; 
  for(int k=0;k<64;k++) for(int s=0;s<17;s++) if(lc3_spectrum_models[k].s[s].low+lc3_spectrum_models[k].s[s].range!=(s<16?lc3_spectrum_models[k].s[s+1].low:1024)) ok=0;
  for(int k=0;k<8;k++) for(int s=0;s<17;s++) if(lc3_tns_coeffs_models[k].s[s].low+lc3_tns_coeffs_models[k].s[s].range!=(s<16?lc3_tns_coeffs_models[k].s[s+1].low:1024)) ok=0;
  for(int k=0;k<2;k++) for(int s=0;s<17;s++) if(lc3_tns_order_models[k].s[s].low+lc3_tns_order_models[k].s[s].range!=(s<16?lc3_tns_order_models[k].s[s+1].low:1024)) ok=0;
  printf("%d",ok);
  printf(",\"lookup\":["); for(int r=0;r<2;r++) for(int h=0;h<2;h++){ printf("%s[",r||h?",":""); for(int t=0;t<256;t++){ printf("%s",t?",":""); A(4,"%d",lc3_spectrum_lookup[r][h][t][i]); } printf("]"); } printf("]");
  printf(",\"win\":["); for(int d=0;d<4;d++){ printf("%s[",d?",":""); for(int s=0;s<7;s++){ printf("%s",s?",":""); if(!lc3_mdct_win[d][s]) printf("[]"); else A(lc3_ns(d,s)+lc3_nd(d,s),"%.9g",(double)lc3_mdct_win[d][s][i]); } printf("]"); } printf("]");
  printf(",\"cnum\":["); for(int s=0;s<5;s++){ int w=lc3_ns_4m[s]>>4; if(w<4)w=4; printf("%s[",s?",":""); for(int g=0;g<4;g++){ printf("%s",g?",":""); A(w,"%.9g",(double)lc3_ltpf_cnum[s][g][i]); } printf("]"); } printf("]");
  printf(",\"cden\":["); for(int s=0;s<5;s++){ int w=lc3_ns_4m[s]>>4; if(w<4)w=4; printf("%s[",s?",":""); for(int g=0;g<4;g++){ printf("%s",g?",":""); A(w,"%.9g",(double)lc3_ltpf_cden[s][g][i]); } printf("]"); } printf("]");
  printf("}\n");
}
