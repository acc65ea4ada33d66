// Force-included in every compile: random draws become choices of the harness.
// A default_random_engine is identified by its seed and the number of draws made from it, so two engines with the
// same seed still produce the same stream, as the real ones do. Without a harness hook the real engine is used.
#pragma once
#ifdef __cplusplus
#include <bits/stdc++.h>
extern long (*vrand_int)(unsigned long seed, unsigned long i, long n);   // 0..n-1
extern double (*vrand_real)(unsigned long seed, unsigned long i);        // [0,1)
namespace std {
class vrt_default_random_engine {
public:
    typedef minstd_rand0::result_type result_type;
    static constexpr result_type default_seed = minstd_rand0::default_seed;
    minstd_rand0 base; unsigned long s, i;
    explicit vrt_default_random_engine(result_type seed = default_seed) : base(seed), s(seed), i(0) {}
    template <class Sseq, class = typename enable_if<is_class<Sseq>::value && !is_same<Sseq, vrt_default_random_engine>::value>::type>
    explicit vrt_default_random_engine(Sseq& q) : base(q), s(7777), i(0) {}
    void seed(result_type v = default_seed) { base.seed(v); s = v; i = 0; }
    static constexpr result_type min() { return minstd_rand0::min(); }
    static constexpr result_type max() { return minstd_rand0::max(); }
    result_type operator()() { if (vrand_int) return min() + vrand_int(s, i++, 7) * ((max() - min()) / 7); i++; return base(); }
    void discard(unsigned long long z) { base.discard(z); i += z; }
    bool operator==(const vrt_default_random_engine& o) const { return base == o.base && s == o.s && i == o.i; }
};
template <class T = int> class vrt_uniform_int_distribution {
    uniform_int_distribution<T> d;
public:
    typedef T result_type; typedef typename uniform_int_distribution<T>::param_type param_type;
    explicit vrt_uniform_int_distribution(T a = 0, T b = numeric_limits<T>::max()) : d(a, b) {}
    explicit vrt_uniform_int_distribution(const param_type& p) : d(p) {}
    void reset() { d.reset(); } T a() const { return d.a(); } T b() const { return d.b(); } T min() const { return d.min(); } T max() const { return d.max(); }
    param_type param() const { return d.param(); } void param(const param_type& p) { d.param(p); }
    template <class G> T operator()(G& g) { return d(g); }
    T operator()(vrt_default_random_engine& g) { if (vrand_int) return d.a() + (T)vrand_int(g.s, g.i++, (long)(d.b() - d.a()) + 1); g.i++; return d(g.base); }
};
template <class T = double> class vrt_uniform_real_distribution {
    uniform_real_distribution<T> d;
public:
    typedef T result_type; typedef typename uniform_real_distribution<T>::param_type param_type;
    explicit vrt_uniform_real_distribution(T a = 0, T b = 1) : d(a, b) {}
    explicit vrt_uniform_real_distribution(const param_type& p) : d(p) {}
    void reset() { d.reset(); } T a() const { return d.a(); } T b() const { return d.b(); } T min() const { return d.min(); } T max() const { return d.max(); }
    param_type param() const { return d.param(); } void param(const param_type& p) { d.param(p); }
    template <class G> T operator()(G& g) { return d(g); }
    T operator()(vrt_default_random_engine& g) { if (vrand_real) return d.a() + (T)vrand_real(g.s, g.i++) * (d.b() - d.a()); g.i++; return d(g.base); }
};
}
#define default_random_engine vrt_default_random_engine
#define uniform_int_distribution vrt_uniform_int_distribution
#define uniform_real_distribution vrt_uniform_real_distribution
#endif
