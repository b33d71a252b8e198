#include "clusterrun.h"
void mc::registerScenarios() { cl::scenarios(cl::LEAD); }
