#pragma once
#include <cmath>
// Normalised associated Legendre function with the Condon-Shortley phase, as in GSL.
inline double gsl_sf_legendre_sphPlm(int l, int m, double x)
{
    double theta = std::acos(x);
    return std::sph_legendre((unsigned)l, (unsigned)m, theta);
}
inline double gsl_sf_legendre_Pl(int l, double x) { return std::legendre((unsigned)l, x); }
