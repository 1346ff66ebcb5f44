CLAIMED='C01 C02 C03 C04 C05 C06 D01 D02 T01 T02 A01 A02 V01 V02 M01 M02 L01 G01 F01 F02 F03 F04 F05 F06 E01 E02 E03 K01 K02 K03 K04 K05 S01 S02 X01 X02 N01'.split()
NOTES={'default':'For every input within the bounds listed in the evidence the solver finds no violation of the property in the symbolically executed code; floating-point rounding is over-approximated by error variables; the IR executor, the lowering and z3 are trusted, and the executor is cross-checked bit for bit against the native code on every run.'}
NA={'N02':'the example binaries consist of argument parsing, printing and process exit (std::env, stdout): I/O and core::fmt cannot be encoded within reach; the library calls they make are covered by the other properties'}
