SPECIFICATION Spec
CONSTANTS
  B = {0, 16, 127, 128, 255}
  N = 3
INVARIANTS Trichotomy Transitive TellsApart FirstDecides
