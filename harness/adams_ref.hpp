#ifndef ADAMS_REF
#define ADAMS_REF
#include "common.hpp"
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
// weights w_i = integral over [0,r] of the Lagrange basis on the nodes s_0..s_{n-1}
static void weights(const double *s, int n, double r, double *w)
{
    for (int i = 0; i < n; ++i) {
        double p[12] = {1};
        int deg = 0;
        double den = 1;
        for (int j = 0; j < n; ++j) {
            if (j == i) continue;
            for (int k = ++deg; k > 0; --k) p[k] = p[k - 1] - s[j] * p[k];
            p[0] = -s[j] * p[0];
            den *= s[i] - s[j];
        }
        double v = 0, q = r;
        for (int k = 0; k <= deg; ++k) { v += p[k] * q / (k + 1); q *= r; }
        w[i] = v / den;
    }
}
// reference: nodes in units of h relative to the start time
struct AdamsRef {
    double s[16];       // node positions, newest first
    vec f[16];          // derivatives, newest first
    int n, eo, maxo;
    vec pred, corr;
    Rhs<> rhs;
    explicit AdamsRef(int o) : n(0), eo(1), maxo(o) {}
    void reset() { n = 0; eo = 1; }
    void push(double pos, const vec &d) { for (int i = n < 15 ? n : 14; i > 0; --i) { s[i] = s[i - 1]; f[i] = f[i - 1]; } s[0] = pos; f[0] = d; if (n < 15) ++n; }
    vec step(const vec &x, double t0, double h, double pos, double r)
    {
        const std::size_t dim = x.size();
        vec d(dim);
        if (n == 0) { rhs(x, d, t0 + h * pos); push(pos, d); }
        double rel[16], w[16];
        for (int i = 0; i < eo; ++i) rel[i] = s[i] - pos;
        weights(rel, eo, r, w);
        pred = x;
        for (std::size_t j = 0; j < dim; ++j) { double a = 0; for (int i = 0; i < eo; ++i) a += w[i] * f[i][j]; pred[j] = x[j] + h * a; }
        rhs(pred, d, t0 + h * pos + h * r);
        rel[0] = r;
        for (int i = 0; i < eo; ++i) rel[i + 1] = s[i] - pos;
        weights(rel, eo + 1, r, w);
        corr = x;
        for (std::size_t j = 0; j < dim; ++j) { double a = w[0] * d[j]; for (int i = 0; i < eo; ++i) a += w[i + 1] * f[i][j]; corr[j] = x[j] + h * a; }
        rhs(corr, d, t0 + h * pos + h * r);
        push(pos + r, d);
        if (eo < maxo) ++eo;
        return corr;
    }
};
struct SwitchSys {
    int mode;                // 0: arbitrary; 1: a cubic in time (small errors)
    void operator()(const vec &x, vec &d, double t) const
    {
        if (mode == 0) vp_sys(0, &x[0], x.size(), t, &d[0], x.size(), BK);
        else d[0] = 0.5 + 0.3 * t * t * t;
    }
};
#endif
