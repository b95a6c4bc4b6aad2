package props

// #include <stdlib.h>
import "C"

// srand fixes the numbers that liblinear's solvers draw.
func srand(seed int) { C.srand(C.uint(seed)) }
