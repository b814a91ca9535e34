"""setup: checks that the simulator imports and that /repo can be imported from it."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
sys.exit(subprocess.call([sys.executable, os.path.join(HERE, 'check.py'), 'S01', '--no-evidence',
                          '--runs', '20']))
