SPECIFICATION Spec
CONSTANT G = 4
CONSTANT W <- WQ
CONSTANT LX <- LQ
INVARIANTS Symmetric SameSide ConvexTri Extents Planar Spatial SameSide3
CHECK_DEADLOCK FALSE
