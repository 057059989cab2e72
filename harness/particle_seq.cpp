// The real class ChargedParticle without its physics: tracking and field evaluation are supplied by the harness as arbitrary functions.
#define InitVay InitVay_real
#define StepVay StepVay_real
#define integrateFieldTrace integrateFieldTrace_real
#define RetardedField RetardedField_real
#define CoordinatesAtTime CoordinatesAtTime_real
#include "particle.cpp"
