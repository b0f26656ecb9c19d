// Uses every operation of the public complex type; analysed, never run.
#include <cmath>
#include <complex>
#include <cstddef>
#include <type_traits>
#include "otfft.h"
using OTFFT::complex_t;
typedef std::complex<double> sc;
#define OUT(f) extern "C" void h_##f
#define CP const complex_t* a, const complex_t* b, double x, double y, complex_t* o
OUT(ctor0)(CP) { *o = complex_t(); }
OUT(ctor1)(CP) { *o = complex_t(x); }
OUT(ctor2)(CP) { *o = complex_t(x, y); }
OUT(ctor_std)(CP) { *o = complex_t(sc(x, y)); }
OUT(to_std)(CP) { sc s = *a; o->Re = s.real(); o->Im = s.imag(); }
OUT(copy)(CP) { complex_t t(*a); *o = t; }
OUT(assign_real)(CP) { *o = x; }
OUT(assign_std)(CP) { *o = sc(x, y); }
OUT(init_list)(CP) { complex_t t{x, y}; *o = t; }
OUT(array)(CP) { double d[4]; complex_t* c = reinterpret_cast<complex_t*>(d); c[0] = *a; c[1] = *b; o->Re = d[1]; o->Im = d[2]; }
OUT(add_eq)(CP) { complex_t t = *a; t += *b; *o = t; }
OUT(sub_eq)(CP) { complex_t t = *a; t -= *b; *o = t; }
OUT(mul_eq_real)(CP) { complex_t t = *a; t *= x; *o = t; }
OUT(div_eq_real)(CP) { complex_t t = *a; t /= x; *o = t; }
OUT(mul_eq)(CP) { complex_t t = *a; t *= *b; *o = t; }
OUT(add_eq_chain)(CP) { complex_t t = *a; (t += *b) += *a; *o = t; }
OUT(sub_eq_chain)(CP) { complex_t t = *a; (t -= *b) -= *b; *o = t; }
OUT(mul_eq_real_chain)(CP) { complex_t t = *a; (t *= x) *= y; *o = t; }
OUT(div_eq_real_chain)(CP) { complex_t t = *a; (t /= x) /= y; *o = t; }
OUT(mul_eq_chain)(CP) { complex_t t = *a; (t *= *b) *= *b; *o = t; }
// operands that are the object itself or one of its components
OUT(add_eq_self)(CP) { complex_t t = *a; t += t; *o = t; }
OUT(sub_eq_self)(CP) { complex_t t = *a; t -= t; *o = t; }
OUT(mul_eq_self)(CP) { complex_t t = *a; t *= t; *o = t; }
OUT(mul_eq_own_re)(CP) { complex_t t = *a; t *= t.Re; *o = t; }
OUT(mul_eq_own_im)(CP) { complex_t t = *a; t *= t.Im; *o = t; }
OUT(div_eq_own_re)(CP) { complex_t t = *a; t /= t.Re; *o = t; }
OUT(div_eq_own_im)(CP) { complex_t t = *a; t /= t.Im; *o = t; }
OUT(mul_into_first)(CP) { complex_t t = *a; t = t * *b; *o = t; }
OUT(mul_into_second)(CP) { complex_t t = *b; t = *a * t; *o = t; }
OUT(div_into_first)(CP) { complex_t t = *a; t = t / *b; *o = t; }
OUT(div_into_second)(CP) { complex_t t = *b; t = *a / t; *o = t; }
OUT(div_own_re)(CP) { complex_t t = *a; t = t / t.Re; *o = t; }
OUT(scale_own_im)(CP) { complex_t t = *a; t = t.Im * t; *o = t; }
OUT(re)(CP) { o->Re = Re(*a); o->Im = Re(*b); }
OUT(im)(CP) { o->Re = Im(*a); o->Im = Im(*b); }
OUT(norm)(CP) { o->Re = norm(*a); o->Im = norm(*b); }
OUT(abs)(CP) { o->Re = abs(*a); o->Im = abs(*b); }
OUT(arg)(CP) { o->Re = arg(*a); o->Im = arg(*b); }
OUT(conj)(CP) { *o = conj(*a); }
OUT(proj)(CP) { *o = proj(*a); }
OUT(polar)(CP) { *o = OTFFT::polar(x, y); }
OUT(jx)(CP) { *o = jx(*a); }
OUT(neg)(CP) { *o = neg(*a); }
OUT(mjx)(CP) { *o = mjx(*a); }
OUT(add)(CP) { *o = *a + *b; }
OUT(sub)(CP) { *o = *a - *b; }
OUT(mul)(CP) { *o = *a * *b; }
OUT(div)(CP) { *o = *a / *b; }
OUT(scale)(CP) { *o = x * *a; }
OUT(div_real)(CP) { *o = *a / x; }
OUT(expj)(CP) { *o = OTFFT::expj(x); }
// mixed operands through the implicit conversions
OUT(add_real)(CP) { *o = *a + x; }
OUT(real_add)(CP) { *o = x + *a; }
OUT(sub_real)(CP) { *o = *a - x; }
OUT(real_sub)(CP) { *o = x - *a; }
OUT(mul_real)(CP) { *o = *a * x; }
OUT(real_div)(CP) { *o = x / *a; }
OUT(mul_std)(CP) { *o = *a * complex_t(sc(x, y)); }
// a value read before a change must not be reused after it
OUT(norm_after_change)(CP) { complex_t t = *a; double n0 = norm(t); t.Re = x; o->Re = norm(t); o->Im = n0; }
extern "C" int h_layout(int k)
{
    switch (k) {
        case 0: return sizeof(complex_t);
        case 1: return offsetof(complex_t, Re);
        case 2: return offsetof(complex_t, Im);
        case 3: return alignof(complex_t);
        case 4: return std::is_standard_layout<complex_t>::value;
        case 5: return std::is_trivially_copyable<complex_t>::value;
        case 6: return std::is_trivially_destructible<complex_t>::value;
        case 7: return sizeof(complex_t[3]);
        case 8: return std::is_same<decltype(complex_t::Re), double>::value;
        case 9: return std::is_same<decltype(complex_t::Im), double>::value;
        case 10: return std::is_nothrow_copy_constructible<complex_t>::value && std::is_nothrow_copy_assignable<complex_t>::value;
        case 11: return std::is_convertible<double, complex_t>::value && std::is_convertible<sc, complex_t>::value && std::is_convertible<complex_t, sc>::value;
    }
    return -1;
}
