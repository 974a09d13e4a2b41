#pragma once
#ifdef VERIF_POSTGRES
#define HAVE_POSTGRES
#endif
