#include "C29.hh"
SITE_DEF(B)
