// the public headers of flint-extras, taken as the C headers they are (all in one extern "C" block)
#pragma once
#include "flint_shim.h"
#include <immintrin.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <time.h>
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wbuiltin-macro-redefined"
#undef __cplusplus
#define restrict __restrict__
extern "C" {
#include "pml.h"
#include "nmod_extra.h"
#include "nmod_vec_extra.h"
#include "nmod32_vec.h"
#include "nmod_mat_extra.h"
#include "nmod_poly_extra.h"
#include "nmod_mat_poly.h"
#include "nmod_poly_mat_extra.h"
#include "fmpz_extra.h"
#include "fmpz_mat_extra.h"
}
#undef restrict
#define __cplusplus 201703L
#pragma GCC diagnostic pop
