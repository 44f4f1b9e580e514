"""setup_cmd: checks that everything the checks need is here and imports; builds nothing."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import runner
p = subprocess.run([runner.PYTHON, "-B", "-c", "from dst import boot, props, worker; print(len(boot.CODES), 'code objects')"],
                   cwd=V, env=runner.env_for(runner.environment(1, 0)), capture_output=True, text=True)
print(p.stdout, p.stderr)
sys.exit(p.returncode)
