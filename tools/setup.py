"""Setup: nothing to install; verifies that the interpreter the checks use can import the library."""
import subprocess, sys
r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, sys; sys.path.insert(0, '/repo'); import dmpbbo"])
sys.exit(r.returncode)
