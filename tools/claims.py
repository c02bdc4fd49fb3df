PY = "contracts on the functions of /repo as parsed on every run, verified path by path by symbolic evaluation with loops summarised for any number of iterations; obligations discharged by z3/cvc5"
NOTE_PY = ("Every obligation generated from the current source is discharged for any number of components, parameters, bins or iterations; numbers are reals "
           "with explicit NaN/infinity flags, library functions by assumed contract; the same contract is also run on concrete inputs on the real code.")
MORE = {i: (PY, "proof", NOTE_PY) for i in ("C05", "C06", "C07", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C33", "C34", "C35")}
