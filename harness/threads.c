/* Runs codec sessions first one after another, then all together on threads.
 *
 * usage: threads <script> <nthreads> <rounds>
 * script (int32 little endian): nsessions, then for each session
 *   kind (0 encoder, 1 decoder), hr, dt_us, sr_hz, srp_hz, ncalls,
 *   and for each call: nbytes, lost, length of data, data (padded to 4)
 *   encoder data: one frame of S16; decoder data: the frame
 * Prints one line for the serial run of each session, and for each parallel
 * run: "<run> <session> <ret>:<hash> ...". Parallel runs equal to the serial
 * one are printed for the first two rounds only. Last line: "runs <n>". */
#include <lc3.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct call { int n, lost, len; const uint8_t *data; };
struct session { int kind, hr, us, hz, pcm, ncalls; struct call *c; };
static struct session *S; static int NS, NT, NR;
typedef struct { int ret; uint64_t h; } res_t;
static res_t **ref;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static long nruns; static atomic_int gate;

static uint64_t fnv(const void *p, int n)
{
    uint64_t h = 1469598103934665603ull; const uint8_t *b = p;
    for (int i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

static void run(const struct session *s, res_t *r)
{
    unsigned sz = s->kind ? lc3_hr_decoder_size(s->hr, s->us, s->pcm) : lc3_hr_encoder_size(s->hr, s->us, s->pcm);
    int ns = lc3_hr_frame_samples(s->hr, s->us, s->pcm);
    void *mem = malloc(sz); uint8_t out[1024]; int16_t *y = calloc(ns, 2);
    memset(mem, 0x5a, sz);
    lc3_encoder_t e = NULL; lc3_decoder_t d = NULL;
    if (s->kind) d = lc3_hr_setup_decoder(s->hr, s->us, s->hz, s->pcm, mem);
    else e = lc3_hr_setup_encoder(s->hr, s->us, s->hz, s->pcm, mem);
    for (int i = 0; i < s->ncalls; i++) {
        struct call *c = s->c + i;
        if (s->kind) {
            r[i].ret = lc3_decode(d, c->lost ? NULL : c->data, c->n, LC3_PCM_FORMAT_S16, y, 1);
            r[i].h = fnv(y, 2 * ns);
        } else {
            r[i].ret = lc3_encode(e, LC3_PCM_FORMAT_S16, c->data, 1, c->n, out);
            r[i].h = fnv(out, c->n);
        }
    }
    free(mem); free(y);
}

static void print(long run, int k, const res_t *r)
{
    printf("%ld %d", run, k);
    for (int i = 0; i < S[k].ncalls; i++) printf(" %d:%016llx", r[i].ret, (unsigned long long)r[i].h);
    printf("\n");
}

static void *work(void *arg)
{
    long id = (long)arg; res_t *r = malloc(sizeof(res_t) * 4096);
    atomic_fetch_add(&gate, 1);
    while (atomic_load(&gate) < NT) ;
    for (int k = 0; k < NR; k++)
        for (int j = 0; j < NS; j++) {
            int i = (j * 7 + id * 3 + k) % NS;
            run(S + i, r);
            int diff = 0;
            for (int q = 0; q < S[i].ncalls; q++) diff |= r[q].ret != ref[i][q].ret || r[q].h != ref[i][q].h;
            pthread_mutex_lock(&lock);
            nruns++;
            if (diff ? nruns < 100000 : k < 1) print(1 + id * 1000000 + k, i, r);
            pthread_mutex_unlock(&lock);
        }
    free(r);
    return NULL;
}

int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "rb"); NT = atoi(argv[2]); NR = atoi(argv[3]);
    fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f);
    int32_t *b = malloc(n), *p = b; if (fread(b, 1, n, f) != (size_t)n) return 2;
    NS = *p++; S = calloc(NS, sizeof *S); ref = calloc(NS, sizeof *ref);
    for (int i = 0; i < NS; i++) {
        struct session *s = S + i;
        s->kind = *p++; s->hr = *p++; s->us = *p++; s->hz = *p++; s->pcm = *p++; s->ncalls = *p++;
        s->c = calloc(s->ncalls, sizeof *s->c);
        for (int q = 0; q < s->ncalls; q++) {
            struct call *c = s->c + q;
            c->n = *p++; c->lost = *p++; c->len = *p++; c->data = (uint8_t *)p; p += (c->len + 3) / 4;
        }
        ref[i] = malloc(sizeof(res_t) * s->ncalls);
    }
    for (int i = 0; i < NS; i++) { run(S + i, ref[i]); print(0, i, ref[i]); }
    pthread_t t[64];
    for (long i = 0; i < NT; i++) pthread_create(t + i, NULL, work, (void *)i);
    for (int i = 0; i < NT; i++) pthread_join(t[i], NULL);
    printf("runs %ld\n", nruns);
    return 0;
}
