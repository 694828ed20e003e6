CONSTANTS Temps = {"180", "298.15", "600", "1500", "3300", "300", "950", "1000", "2500"}
Pressures = {"5000", "101325", "4e6"}
Densities = {"0.1", "3"}
Mixes = {"air", "fuel", "radicals", "helium", "steam"}
Depth = 5
SPECIFICATION Spec
INVARIANTS Proper Reads Keeps Convert Thermo
CHECK_DEADLOCK FALSE
