"""Nothing to install: checks that the pre-installed tools the checks use are present."""
import shutil, sys
import z3, numpy
for t in ('clang++-18', 'clang++', 'opt-18'):
    print(t, shutil.which(t))
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
