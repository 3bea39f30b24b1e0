// Stand-in for MFEM, written for these checks. See DESIGN.md, "The MFEM stand-in".
#pragma once
#include "linalg.hpp"
#include "fem.hpp"
