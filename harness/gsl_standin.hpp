// the three functions of libgsl the adaptor uses, so that they are part of what is executed symbolically
#include <gsl/gsl_vector.h>
#include <cstdlib>
extern "C" gsl_vector *gsl_vector_alloc(const size_t n)
{
    gsl_vector *v = (gsl_vector *)std::malloc(sizeof(gsl_vector));
    v->block = 0;
    v->data = (double *)std::malloc(n ? n * sizeof(double) : 1);
    v->size = n; v->stride = 1; v->owner = 1;
    return v;
}
extern "C" void gsl_vector_free(gsl_vector *v) { if (!v) return; if (v->owner) std::free(v->data); std::free(v); }
extern "C" int gsl_vector_memcpy(gsl_vector *d, const gsl_vector *s)
{
    vp_assert(d->size == s->size, "gsl_vector_memcpy: vector lengths are equal");
    for (size_t i = 0; i < s->size; ++i) d->data[d->stride * i] = s->data[s->stride * i];
    return 0;
}
