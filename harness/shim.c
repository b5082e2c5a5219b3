/* Read access to the public state structures of include/lc3_private.h */
#include <lc3.h>
#include <lc3_private.h>
#include <string.h>
#define API __attribute__((visibility("default")))

API int shim_enc(const struct lc3_encoder *e, int *i, float *f)
{
    i[0] = e->dt; i[1] = e->sr; i[2] = e->sr_pcm; i[3] = e->ltpf_bypass;
    i[4] = e->attdet.en1; i[5] = e->attdet.an1; i[6] = e->attdet.p_att;
    i[7] = e->ltpf.active; i[8] = e->ltpf.pitch; i[9] = e->ltpf.tc;
    i[10] = e->xt_off; i[11] = e->xs_off; i[12] = e->xd_off;
    i[13] = e->spec.nbits_spare;
    f[0] = e->ltpf.nc[0]; f[1] = e->ltpf.nc[1]; f[2] = e->spec.nbits_off;
    return (int)((const char *)e->x - (const char *)e);
}

API int shim_dec(const struct lc3_decoder *d, int *i, float *f)
{
    i[0] = d->dt; i[1] = d->sr; i[2] = d->sr_pcm;
    i[3] = d->ltpf.active; i[4] = d->ltpf.pitch;
    i[5] = d->plc.seed; i[6] = d->plc.count;
    i[7] = d->xh_off; i[8] = d->xs_off; i[9] = d->xd_off; i[10] = d->xg_off;
    f[0] = d->plc.alpha;
    return (int)((const char *)d->x - (const char *)d);
}
