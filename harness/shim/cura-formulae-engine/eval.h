#include "cura-formulae-engine/formulae_shim.h"
