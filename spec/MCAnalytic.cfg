SPECIFICATION Spec
CONSTANT K = 4
INVARIANTS Solenoidal Tangent OnSurface Winding Mirror Toroidal
CHECK_DEADLOCK FALSE
