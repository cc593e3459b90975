#include "sundials_sim.h"
