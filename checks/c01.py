import fd
EXPLANATION = "Bounded symbolic execution of FD::FD and FD::der from clang's IR; grid data (or polynomial coefficients) and the interval are symbolic reals; every output term is brought to rational normal form and z3 decides that it equals the exact derivative for all values."
def check(C): fd.derivative(C, "fd.der(v,o);", 6, 1)
