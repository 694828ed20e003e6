CONSTANTS Temps = {"180", "300", "950", "1000", "2500"}
Pressures = {"5000", "101325", "4e6"}
Densities = {"0.1", "3"}
Mixes = {"air", "fuel", "radicals", "helium"}
Depth = 3
SPECIFICATION Spec
INVARIANTS Proper Reads Keeps Convert Thermo
CHECK_DEADLOCK FALSE
