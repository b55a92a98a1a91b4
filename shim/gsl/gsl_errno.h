#pragma once
#ifndef GSL_SUCCESS
enum { GSL_SUCCESS = 0, GSL_FAILURE = -1, GSL_EINVAL = 4, GSL_EMAXITER = 11, GSL_EBADTOL = 13, GSL_EROUND = 18, GSL_ESING = 21 };
#endif
typedef void gsl_error_handler_t(const char *, const char *, int, int);
inline gsl_error_handler_t *gsl_set_error_handler_off() { return nullptr; }
inline const char *gsl_strerror(int s) {
    switch (s) {
        case 0: return "success"; case 11: return "exceeded max number of iterations";
        case 13: return "user specified an invalid tolerance"; case 18: return "failed because of roundoff error";
        case 21: return "apparent singularity detected"; default: return "error";
    }
}
