#pragma once
#include <cmath>
inline double gsl_sf_bessel_jl(int l, double x) { return std::sph_bessel((unsigned)l, x); }
inline double gsl_sf_bessel_Jn(int n, double x) { return std::cyl_bessel_j((double)n, x); }
inline double gsl_sf_bessel_J0(double x) { return std::cyl_bessel_j(0.0, x); }
inline double gsl_sf_bessel_J1(double x) { return std::cyl_bessel_j(1.0, x); }
