// Independent energy reference: the documented weighting of reported counts, written from the specification record a user provides.
#pragma once
#include "sut.h"
Ener refEnergy(const Spec&, const Snap&);
bool energyCoefficientsNonNegative(const Spec&);     // every weight the standard's formulas apply is >= 0
