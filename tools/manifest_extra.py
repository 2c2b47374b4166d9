GMP = ("symbolic execution of the compiled code (LLVM IR) with GMP integers as symbolic values: residue classes modulo 2^k-th powers "
       "for every key, exact bit-vectors for small keys; decided by SMT (z3); native replay of counterexamples with real GMP")
GNOTE = ("Shown for every value of every symbolic message, coefficient, residue class and draw at the message widths, loop bounds and keys listed in the evidence. "
         "Group facts used by the model: for prime p = 1 mod 2^k with non-residue y, y^((p-1)/2^k) has order 2^k; random elements are units of Z_N. "
         "Trusted: clang front end and mem2reg, the symbolic executor, the models of the GMP functions (compared with native runs), z3.")
for p in ("C24", "C25", "C27", "C28"):
    T[p] = (GMP, GNOTE)
T["C26"] = ("symbolic execution of the compiled key generation (LLVM IR): random draws, primality answers and residue symbols are unconstrained symbolic variables; "
            "conditions on the results decided by SMT (z3); native replay with real GMP",
            "Shown for every outcome of the random source, of every primality test and every residue symbol, with the number of rounds of each search loop and the key sizes "
            "listed in the evidence; that a number which passed GMP's primality test is prime is trusted (as the property says). Products of two secrets are uninterpreted above 40 bits.")
T["C29"] = ("symbolic execution of the compiled example program (LLVM IR) with arbitrary plaintexts, and with received messages replaced by arbitrary bytes and either validation outcome; "
            "recovery and use of unvalidated bytes decided by SMT (z3) on every path; native replay with the changed byte",
            "Shown for all plaintexts of the example's lengths and for every replacement of a received message (any bytes, either outcome of the validation). "
            "Stand-ins for std::string and the streams; the tag's strength and the ciphers are the subject of C04, C08 and C15. Trusted: clang front end and mem2reg, the symbolic executor, z3.")
