#pragma once
#include <cstdlib>
namespace fast_double_parser{ inline const char* parse_number(const char*p,double*o){char*e;*o=strtod(p,&e);return e==p?nullptr:e;} }
