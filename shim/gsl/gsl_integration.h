// Stand-in for the adaptive Gauss-Kronrod integrator of the GNU Scientific Library (QAG, 15 points).
#pragma once
#include <cmath>
#include <cfloat>
#include <cstddef>
#include <algorithm>
#include <vector>
#include "gsl_errno.h"

typedef struct { double (*function)(double x, void *params); void *params; } gsl_function;
#define GSL_FN_EVAL(F, x) (*((F)->function))(x, (F)->params)
typedef struct { size_t limit; size_t size; } gsl_integration_workspace;
inline gsl_integration_workspace *gsl_integration_workspace_alloc(size_t n) {
    gsl_integration_workspace *w = new gsl_integration_workspace(); w->limit = n; w->size = 0; return w;
}
inline void gsl_integration_workspace_free(gsl_integration_workspace *w) { delete w; }
enum { GSL_INTEG_GAUSS15 = 1, GSL_INTEG_GAUSS21 = 2, GSL_INTEG_GAUSS31 = 3, GSL_INTEG_GAUSS41 = 4, GSL_INTEG_GAUSS51 = 5, GSL_INTEG_GAUSS61 = 6 };

namespace gsl_shim {
struct piece { double a, b, r, e; bool operator<(const piece &o) const { return e < o.e; } };
inline void qk15(const gsl_function *f, double a, double b, double *result, double *abserr, double *resabs, double *resasc) {
    static const double xgk[8] = {0.991455371120812639206854697526329, 0.949107912342758524526189684047851,
        0.864864423359769072789712788640926, 0.741531185599394439863864773280788, 0.586087235467691130294144691258380,
        0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0.0};
    static const double wg[4] = {0.129484966168869693270611432679082, 0.279705391489276667901467771423780,
        0.381830050505118944950369775488975, 0.417959183673469387755102040816327};
    static const double wgk[8] = {0.022935322010529224963732008058970, 0.063092092629978553290700663189204,
        0.104790010322250183839876322541518, 0.140653259715525918745189590510238, 0.169004726639267902826583426598550,
        0.190350578064785409913256402421014, 0.204432940075298892414161999234649, 0.209482141084727828012999174891714};
    double c = 0.5 * (a + b), h = 0.5 * (b - a), ah = std::fabs(h);
    double fc = GSL_FN_EVAL(f, c);
    double rg = fc * wg[3], rk = fc * wgk[7], ra = std::fabs(rk);
    double fv1[8], fv2[8];
    for (int j = 0; j < 7; ++j) {
        double x = h * xgk[j];
        fv1[j] = GSL_FN_EVAL(f, c - x);
        fv2[j] = GSL_FN_EVAL(f, c + x);
        rk += wgk[j] * (fv1[j] + fv2[j]);
        if (j % 2 == 1) rg += wg[j / 2] * (fv1[j] + fv2[j]);
        ra += wgk[j] * (std::fabs(fv1[j]) + std::fabs(fv2[j]));
    }
    double mean = rk * 0.5, rs = wgk[7] * std::fabs(fc - mean);
    for (int j = 0; j < 7; ++j) rs += wgk[j] * (std::fabs(fv1[j] - mean) + std::fabs(fv2[j] - mean));
    double err = std::fabs((rk - rg) * h);
    *result = rk * h; *resabs = ra * ah; *resasc = rs * ah;
    if (*resasc != 0 && err != 0) { double s = std::pow(200 * err / *resasc, 1.5); err = s < 1 ? *resasc * s : *resasc; }
    if (*resabs > DBL_MIN / (50 * DBL_EPSILON)) err = std::max(err, 50 * DBL_EPSILON * *resabs);
    *abserr = err;
}
}

inline int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel, size_t limit,
                               int, gsl_integration_workspace *w, double *result, double *abserr) {
    using gsl_shim::piece;
    *result = 0; *abserr = 0; w->size = 1;
    if (limit > w->limit) return GSL_EINVAL;
    if (epsabs <= 0 && (epsrel < 50 * DBL_EPSILON || epsrel < 0.5e-28)) return GSL_EBADTOL;
    double r, e, ra, rs;
    gsl_shim::qk15(f, a, b, &r, &e, &ra, &rs);
    double tol = std::max(epsabs, epsrel * std::fabs(r));
    double ro = 50 * DBL_EPSILON * ra;
    if (e <= ro && e > tol) { *result = r; *abserr = e; return GSL_EROUND; }
    if ((e <= tol && e != rs) || e == 0.0) { *result = r; *abserr = e; return GSL_SUCCESS; }
    if (limit == 1) { *result = r; *abserr = e; return GSL_EMAXITER; }
    std::vector<piece> heap;
    heap.push_back(piece{a, b, r, e});
    double area = r, errsum = e;
    size_t iter = 1; int rt1 = 0, rt2 = 0, et = 0;
    do {
        std::pop_heap(heap.begin(), heap.end());
        piece p = heap.back(); heap.pop_back();
        double m = 0.5 * (p.a + p.b), r1, e1, r2, e2, a1, s1, a2, s2;
        gsl_shim::qk15(f, p.a, m, &r1, &e1, &a1, &s1);
        gsl_shim::qk15(f, m, p.b, &r2, &e2, &a2, &s2);
        double r12 = r1 + r2, e12 = e1 + e2;
        errsum += e12 - p.e; area += r12 - p.r;
        if (s1 != e1 && s2 != e2) {
            double d = p.r - r12;
            if (std::fabs(d) <= 1e-5 * std::fabs(r12) && e12 >= 0.99 * p.e) rt1++;
            if (iter >= 10 && e12 > p.e) rt2++;
        }
        tol = std::max(epsabs, epsrel * std::fabs(area));
        heap.push_back(piece{p.a, m, r1, e1}); std::push_heap(heap.begin(), heap.end());
        heap.push_back(piece{m, p.b, r2, e2}); std::push_heap(heap.begin(), heap.end());
        if (errsum > tol) {
            if (rt1 >= 6 || rt2 >= 20) et = 2;
            double tmp = (1 + 100 * DBL_EPSILON) * (std::fabs(m) + 1000 * DBL_MIN);
            if (std::fabs(p.a) <= tmp && std::fabs(p.b) <= tmp) et = 3;
        }
        iter++;
        w->size = heap.size();
    } while (iter < limit && !et && errsum > tol);
    double sum = 0, es = 0;
    for (const piece &p : heap) { sum += p.r; es += p.e; }
    *result = sum; *abserr = es;
    if (errsum <= tol) return GSL_SUCCESS;
    if (et == 2) return GSL_EROUND;
    if (et == 3) return GSL_ESING;
    if (iter == limit) return GSL_EMAXITER;
    return GSL_FAILURE;
}
