SPECIFICATION Spec
INVARIANTS Inverse Size Group FilmAmplitude
CHECK_DEADLOCK FALSE
