#include <geos/verif_geos.h>
