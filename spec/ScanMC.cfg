SPECIFICATION Spec
CONSTANTS Alphabet = {39, 92, 36, 47, 42, 45, 32, 97}
          MaxLen = 4
INVARIANTS Ordered Tiled Final Trailing
PROPERTIES Monotone Terminates
