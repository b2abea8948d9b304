"""Builds the IR dumper, the generator and the IR of the generator of the current tree into /verif/build."""
import build
build.irdump(); build.generator(); build.program()
print('ready')
