/* Encodes long sessions and keeps the frames worth looking at: those whose
 * bytes show a run of pending carries, those that decode badly or far from
 * their input. Selection only; the specification judges the frames kept.
 *
 *   miner hr dt_us sr_hz recipe seed count keep out
 */
#include <lc3.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define NMAX 960
#define BMAX 640

static uint64_t S;
static uint32_t rnd(void)
{
    S ^= S << 13, S ^= S >> 7, S ^= S << 17;
    return (uint32_t)(S >> 16);
}
static double uni(void) { return rnd() * (1. / 4294967296.); }

struct rec { int32_t reason, k, nbytes, ret; int16_t pcm[2 * NMAX]; uint8_t b[BMAX]; double score; };

static double lp, ph, fq, amp = 1, tgt = 1;

static void gen(int recipe, int16_t *x, int n)
{
    if (recipe == 0) {                      /* white, level changing slowly */
        if (uni() < .05) tgt = pow(10, -3 * uni());
        for (int i = 0; i < n; i++) amp += (tgt - amp) * .01, x[i] = 32767 * amp * (2 * uni() - 1);
    } else if (recipe == 1) {               /* coloured */
        if (uni() < .1) tgt = pow(10, -4 * uni()), fq = .3 + .69 * uni();
        for (int i = 0; i < n; i++) lp = fq * lp + (1 - fq) * (2 * uni() - 1), x[i] = 32767 * tgt * lp;
    } else if (recipe == 2) {               /* tone in noise, sweeping */
        if (uni() < .2) tgt = pow(10, -5 * uni()), fq = .5 * uni();
        for (int i = 0; i < n; i++) fq += 1e-7, ph += fq, x[i] = 20000 * sin(2 * 3.14159265358979 * ph) + 12000 * tgt * (2 * uni() - 1);
    } else {                                /* anything from frame to frame */
        int m = rnd() % 6;
        double a = pow(10, -4.5 * uni());
        for (int i = 0; i < n; i++)
            x[i] = m == 0 ? 0 : m == 1 ? (int)(rnd() % 3) - 1 : m == 2 ? ((rnd() & 255) ? 0 : 32767 * a) :
                   m == 3 ? 32767 * a * (2 * uni() - 1) : m == 4 ? (rnd() & 1 ? 32767 : -32768) : 32767 * a * sin(i * a);
    }
}

int main(int argc, char *argv[])
{
    int hr = atoi(argv[1]), dt = atoi(argv[2]), hz = atoi(argv[3]), recipe = atoi(argv[4]);
    S = strtoull(argv[5], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    int count = atoi(argv[6]), keep = atoi(argv[7]);
    int n = lc3_hr_frame_samples(hr, dt, hz), delay = lc3_hr_delay_samples(hr, dt, hz);
    int lo = lc3_hr_frame_bytes(hr, dt, hz, 0), hi = lc3_hr_frame_bytes(hr, dt, hz, 1 << 30);

    lc3_encoder_t e = lc3_hr_setup_encoder(hr, dt, hz, 0, malloc(lc3_hr_encoder_size(hr, dt, hz)));
    lc3_decoder_t d = lc3_hr_setup_decoder(hr, dt, hz, 0, malloc(lc3_hr_decoder_size(hr, dt, hz)));
    struct rec *pat = calloc(keep + 1, sizeof *pat), *bad = calloc(keep + 1, sizeof *bad), *low = calloc(keep + 1, sizeof *low), r;
    int np = 0, nb = 0, nl = 0, nbytes = lo;
    int16_t *h = calloc(4 * n, sizeof *h), *y = calloc(n, sizeof *y);
    for (int i = 0; i < 64; i++) rnd();
    if (rnd() & 1) lc3_encoder_disable_ltpf(e);

    for (int k = 0; k < count; k++) {
        if (k % 16 == 0 || recipe == 3)
            nbytes = rnd() % 3 ? lo + rnd() % (hi - lo + 1) : lo + rnd() % ((hi - lo) / 4 + 1);
        memmove(h, h + n, 3 * n * sizeof *h);
        gen(recipe, h + 3 * n, n);
        memset(&r, 0, sizeof r);
        r.k = k, r.nbytes = nbytes;
        int re = lc3_encode(e, LC3_PCM_FORMAT_S16, h + 3 * n, 1, nbytes, r.b);
        r.ret = lc3_decode(d, r.b, nbytes, LC3_PCM_FORMAT_S16, y, 1);
        memcpy(r.pcm, h + 2 * n, 2 * n * sizeof *h);

        double en = 1, er = 0;
        for (int i = 0; i < n; i++) {
            double a = h[3 * n + i - delay];
            en += a * a, er += (a - y[i]) * (a - y[i]);
        }
        r.score = k < 2 ? -1 : er / en;

        int run = 0, hit = 0;
        for (int i = 1; i <= nbytes * 3 / 4; i++) {
            int z = i < nbytes * 3 / 4 && (r.b[i] == 0 || r.b[i] == 0xff);
            run = z ? run + 1 : (hit |= run >= 2 && run <= 4, 0);
        }
        if ((r.ret || re) && k >= 1 && nb < keep) r.reason = 1, bad[nb++] = r;
        if (hit && k >= 1 && np < 2 * keep) {
            r.reason = 2;
            if (np < keep) pat[np++] = r;
        }
        if (k >= 1 && keep) {               /* the worst ones */
            r.reason = 3;
            int i = nl < keep ? nl++ : keep;
            low[i] = r;
            for (; i > 0 && low[i].score > low[i-1].score; i--) {
                struct rec t = low[i]; low[i] = low[i-1], low[i-1] = t;
            }
        }
    }
    FILE *f = fopen(argv[8], "wb");
    for (int m = 0; m < 3; m++) {
        struct rec *p = m == 0 ? bad : m == 1 ? pat : low;
        for (int i = 0; i < (m == 0 ? nb : m == 1 ? np : nl); i++) {
            fwrite(&p[i].reason, 4, 4, f);
            fwrite(p[i].pcm, 2, 2 * n, f);
            fwrite(p[i].b, 1, BMAX, f);
        }
    }
    return fclose(f);
}
