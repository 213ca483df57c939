    F1(abs)
    F2(fmod)
    F2(remainder)
    F2(fmax)
    F2(fmin)
    F1(exp)
    F1(exp2)
    F1(expm1)
    F1(log)
    F1(log10)
    F1(log2)
    F1(log1p)
    F2(pow)
    F1(sqrt)
    F1(cbrt)
    F2(hypot)
    F1(sin)
    F1(cos)
    F1(tan)
    F1(asin)
    F1(acos)
    F1(atan)
    F2(atan2)
    F1(sinh)
    F1(cosh)
    F1(tanh)
    F1(asinh)
    F1(acosh)
    F1(atanh)
    F1(erf)
    F1(erfc)
