"""C01: all scenarios are enumerated by spec/GenC01.tla."""
TLA_GEN = ["GenC01"]
ASSUME = ["files up to a few hundred bytes: identification reads the first 16 bytes and IFD0 only"]
