#include "tgeo_standin.h"
