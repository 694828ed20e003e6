SPECIFICATION Spec
CONSTANTS
  Temps = {"320", "1500"}
  Densities = {"0.2", "3"}
  Speeds1 = {"-1500", "30"}
  Mixes = {"air", "radicals"}
  DimSet = {2}
  Hows = {"prim", "prim-array", "char-minmod", "char-vanleer"}
INVARIANTS Consistent MirrorSymmetric AxesAlike UpwindIfSupersonic Conservative Positive Bounds PrimLaws FlowLaws BackAndForth Uniform Unsided Between
CHECK_DEADLOCK FALSE
