// The classes of lc3_cpp.h behind C functions
#include <lc3_cpp.h>

using namespace lc3;

template <class T> static int query(T *o, int q, int a)
{
    return q == 0 ? o->GetFrameSamples() : q == 1 ? o->GetFrameBytes(a) :
           q == 2 ? o->ResolveBitrate(a) : o->GetDelaySamples();
}

extern "C" {

void *cx_enc(int dt, int sr, int pcm, int n, int hr, int args)
{
    switch (args) {
    case 2: return new Encoder(dt, sr);
    case 3: return new Encoder(dt, sr, pcm);
    case 4: return new Encoder(dt, sr, pcm, n);
    }
    return new Encoder(dt, sr, pcm, n, hr);
}

void *cx_dec(int dt, int sr, int pcm, int n, int hr, int args)
{
    switch (args) {
    case 2: return new Decoder(dt, sr);
    case 3: return new Decoder(dt, sr, pcm);
    case 4: return new Decoder(dt, sr, pcm, n);
    }
    return new Decoder(dt, sr, pcm, n, hr);
}

void cx_free_enc(void *p) { delete static_cast<Encoder *>(p); }
void cx_free_dec(void *p) { delete static_cast<Decoder *>(p); }
void cx_reset_enc(void *p) { static_cast<Encoder *>(p)->Reset(); }
void cx_reset_dec(void *p) { static_cast<Decoder *>(p)->Reset(); }
void cx_disable(void *p) { static_cast<Encoder *>(p)->DisableLTPF(); }

// typed: the overload of the sample type, else the one with a format
int cx_encode(void *p, int fmt, int typed, const void *pcm, int n, uint8_t *out)
{
    Encoder *e = static_cast<Encoder *>(p);
    if (typed && fmt == 0) return e->Encode(static_cast<const int16_t *>(pcm), n, out);
    if (typed && fmt == 1) return e->Encode(static_cast<const int32_t *>(pcm), n, out);
    if (typed && fmt == 3) return e->Encode(static_cast<const float *>(pcm), n, out);
    static const PcmFormat F[] = { PcmFormat::kS16, PcmFormat::kS24, PcmFormat::kS24In3Le, PcmFormat::kF32 };
    return e->Encode(F[fmt], pcm, n, out);
}

int cx_decode(void *p, const uint8_t *in, int n, int fmt, int typed, void *pcm)
{
    Decoder *d = static_cast<Decoder *>(p);
    if (typed && fmt == 0) return d->Decode(in, n, static_cast<int16_t *>(pcm));
    if (typed && fmt == 1) return d->Decode(in, n, static_cast<int32_t *>(pcm));
    if (typed && fmt == 3) return d->Decode(in, n, static_cast<float *>(pcm));
    static const PcmFormat F[] = { PcmFormat::kS16, PcmFormat::kS24, PcmFormat::kS24In3Le, PcmFormat::kF32 };
    return d->Decode(in, n, F[fmt], pcm);
}

int cx_query_enc(void *p, int q, int a) { return query(static_cast<Encoder *>(p), q, a); }
int cx_query_dec(void *p, int q, int a) { return query(static_cast<Decoder *>(p), q, a); }

}
