"""Nothing has to be built: checks that the tools are there."""
import subprocess, sys
subprocess.run(['/opt/veriftools/pyvenv/bin/python', '-c', 'import z3, sympy; print("z3", z3.get_version_string())'], check=True)
subprocess.run(['bash', '-c', '. /opt/vp/env.sh; python -c "import casadi, numpy"'], check=True)
