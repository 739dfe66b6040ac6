"""setup_cmd: nothing to build; confirms that the interpreter and the package import."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nmv import env  # noqa: E402

env.setup()
import neutrinomass.completions  # noqa: E402,F401
print("setup ok", env.REPO)
