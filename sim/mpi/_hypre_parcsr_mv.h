#include "hypre_sim.h"
