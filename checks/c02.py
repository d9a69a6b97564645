import fd
EXPLANATION = "Bounded symbolic execution of FD::FD and FD::der2 from clang's IR; grid data (or polynomial coefficients) and the interval are symbolic reals; every output term is brought to rational normal form and z3 decides that it equals the exact second derivative for all values."
def check(C): fd.derivative(C, "fd.der2(v,o);", 7, 2)
