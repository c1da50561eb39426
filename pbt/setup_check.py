"""Setup: nothing to build; checks that the tools the machinery needs are there."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run
out = subprocess.run([run.PY, '-c', 'import sys; sys.path.insert(0, %r); import worker, hypothesis, numpy, scipy, sympy; worker.setup(); '
                      'print(sys.version.split()[0], hypothesis.__version__, numpy.__version__, scipy.__version__, sympy.__version__)' % HERE],
                     env=run.env_for(0, '/tmp'), capture_output=True, text=True)
print(out.stdout, out.stderr[-2000:])
sys.exit(out.returncode)
