#pragma once
#include <cstddef>
extern "C" void sx_unsupported(const char *);
extern "C" size_t sx_format_fp(char *out, double v, char conv, int prec, bool alt, bool plus);
